From e59a3429c4ea61fe1bec7a15c83aade6f09316aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:48 +0000
Subject: [PATCH 01/75] fix: check CPU availability entirely inside the cpuinfo
 lock

shmem_cpuinfo__check_cpu_availability read the CPU state without holding the
lock, and when granting an empty CPU to its owner it neither set the CPU as
BUSY nor updated the occupied cores, so a later Reclaim could skip it.
---
 src/LB_comm/shmem_cpuinfo.c | 47 ++++++++++++++++++++-----------------
 1 file changed, 26 insertions(+), 21 deletions(-)

diff --git a/src/LB_comm/shmem_cpuinfo.c b/src/LB_comm/shmem_cpuinfo.c
index 35cdc36..ed39eb2 100644
--- a/src/LB_comm/shmem_cpuinfo.c
+++ b/src/LB_comm/shmem_cpuinfo.c
@@ -2110,32 +2110,37 @@ int shmem_cpuinfo__get_number_of_non_owned_cpus(pid_t pid) {
 }
 
 int shmem_cpuinfo__check_cpu_availability(pid_t pid, int cpuid) {
+
+    if (cpuid >= node_size) return DLB_ERR_PERM;
+
     int error = DLB_NOTED;
-    cpuinfo_t *cpuinfo = &shdata->node_info[cpuid];
+    shmem_lock(shm_handler);
+    {
+        cpuinfo_t *cpuinfo = &shdata->node_info[cpuid];
 
-    if (cpuinfo->owner != pid
-            && (cpuinfo->state == CPU_BUSY || cpuinfo->state == CPU_DISABLED) ) {
-        /* The CPU is reclaimed or disabled */
-        error = DLB_ERR_PERM;
-    } else if (cpuinfo->guest == pid) {
-        /* The CPU is already guested by the process */
-        error = DLB_SUCCESS;
-    } else if (cpuinfo->guest == NOBODY ) {
-        /* Assign new guest if the CPU is empty */
-        shmem_lock(shm_handler);
-        {
-            if (cpuinfo->guest == NOBODY) {
-                cpuinfo->guest = pid;
-                CPU_CLR(cpuid, &shdata->free_cpus);
-                error = DLB_SUCCESS;
+        if (cpuinfo->owner != pid
+                && (cpuinfo->state == CPU_BUSY || cpuinfo->state == CPU_DISABLED) ) {
+            /* The CPU is reclaimed or disabled */
+            error = DLB_ERR_PERM;
+        } else if (cpuinfo->guest == pid) {
+            /* The CPU is already guested by the process */
+            error = DLB_SUCCESS;
+        } else if (cpuinfo->guest == NOBODY) {
+            /* Assign new guest if the CPU is empty */
+            cpuinfo->guest = pid;
+            if (cpuinfo->owner == pid) {
+                cpuinfo->state = CPU_BUSY;
             }
+            CPU_CLR(cpuid, &shdata->free_cpus);
+            update_occupied_cores(cpuinfo->owner, cpuinfo->id);
+            error = DLB_SUCCESS;
+        } else if (cpuinfo->owner == pid
+                && cpuinfo->state == CPU_LENT) {
+            /* The owner is asking for a CPU not reclaimed yet */
+            error = DLB_NOUPDT;
         }
-        shmem_unlock(shm_handler);
-    } else if (cpuinfo->owner == pid
-            && cpuinfo->state == CPU_LENT) {
-        /* The owner is asking for a CPU not reclaimed yet */
-        error = DLB_NOUPDT;
     }
+    shmem_unlock(shm_handler);
 
     return error;
 }
-- 
2.43.0


From 494df92bdbd5f5fbc5a12e276377e38b51e9d4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:26 +0000
Subject: [PATCH 02/75] fix: keep disabled CPUs still in use in the occupied
 set

A CPU whose owner finalizes (or loses it) while another process is using it was
removed from occupied_cores, so the borrower polling with Return was never told
to stop using it.
---
 src/LB_comm/shmem_cpuinfo.c | 41 +++++++++++++++++--------------------
 1 file changed, 19 insertions(+), 22 deletions(-)

diff --git a/src/LB_comm/shmem_cpuinfo.c b/src/LB_comm/shmem_cpuinfo.c
index ed39eb2..670a51b 100644
--- a/src/LB_comm/shmem_cpuinfo.c
+++ b/src/LB_comm/shmem_cpuinfo.c
@@ -151,38 +151,35 @@ static bool core_is_eligible(pid_t pid, int cpuid) {
     }
 }
 
+/* A CPU is occupied if it is guested by some process that is not the owner.
+ * A CPU without owner is only occupied if it is disabled, in that case the guest
+ * still needs to return it. */
+static bool cpu_is_occupied(pid_t owner, int cpuid) {
+    const cpuinfo_t *cpuinfo = &shdata->node_info[cpuid];
+    return cpuinfo->guest != NOBODY
+        && cpuinfo->guest != owner
+        && (owner != NOBODY || cpuinfo->state == CPU_DISABLED);
+}
+
 /* A core is occupied if any of the CPUs in the core are guested by some
  * process that is not the owner. The owner is provided as parameter since
  * this function may be called during the core registration */
 static bool core_is_occupied(pid_t owner, int cpuid) {
-    if (owner == NOBODY) return false;
-
     if (shdata->flags.hw_has_smt) {
         const mu_cpuset_t *core_mask = mu_get_core_mask(cpuid);
         for (int cpuid_in_core = core_mask->first_cpuid;
                 cpuid_in_core >= 0;
                 cpuid_in_core = mu_get_next_cpu(core_mask->set, cpuid_in_core)) {
-            pid_t guest = shdata->node_info[cpuid_in_core].guest;
-            if (guest != NOBODY
-                    && guest != owner) {
+            if (cpu_is_occupied(owner, cpuid_in_core)) {
                 return true;
             }
         }
         return false;
     } else {
-        pid_t guest = shdata->node_info[cpuid].guest;
-        return guest != NOBODY
-            && guest != owner;
+        return cpu_is_occupied(owner, cpuid);
     }
 }
 
-static bool cpu_is_occupied(pid_t owner, int cpuid) {
-    pid_t guest = shdata->node_info[cpuid].guest;
-    return guest != NOBODY
-        && owner != NOBODY
-        && guest != owner;
-}
-
 /* Assuming that only cpuid has changed its state, update occupied_cores accordingly */
 static void update_occupied_cores(pid_t owner, int cpuid) {
     if (shdata->flags.hw_has_smt) {
@@ -295,9 +292,8 @@ static void deregister_cpu(cpuinfo_t *cpuinfo, int pid) {
             queue_pid_t_clear(&cpuinfo->requests);
             CPU_CLR(cpuid, &shdata->free_cpus);
         }
-        /* Clear all CPUs in core from the occupied */
-        const cpu_set_t *core_mask = mu_get_core_mask(cpuinfo->id)->set;
-        mu_substract(&shdata->occupied_cores, &shdata->occupied_cores, core_mask);
+        /* Keep CPU in the occupied set if the guest still needs to return it */
+        update_occupied_cores(NOBODY, cpuid);
     } else {
         // Free external CPUs that I may be using
         if (cpuinfo->guest == pid) {
@@ -1832,8 +1828,8 @@ int shmem_cpuinfo__deregister(pid_t pid, array_cpuinfo_task_t *restrict tasks) {
                 }
                 cpuinfo->owner = NOBODY;
 
-                /* It will be consistent as long as one core belongs to one process only */
-                CPU_CLR(cpuid, &shdata->occupied_cores);
+                /* Keep CPU in the occupied set if the guest still needs to return it */
+                update_occupied_cores(NOBODY, cpuid);
             } else {
                 // Free external CPUs that I might be using
                 if (cpuinfo->guest == pid) {
@@ -1964,8 +1960,8 @@ void shmem_cpuinfo__update_ownership(pid_t pid, const cpu_set_t *restrict proces
                 if (cpuinfo->guest == NOBODY) {
                     cpuinfo->guest = pid;
                     CPU_CLR(cpuid, &shdata->free_cpus);
-                    CPU_CLR(cpuid, &shdata->occupied_cores);
                 }
+                update_occupied_cores(pid, cpuid);
                 if (tasks) {
                     if (cpuinfo->guest != pid) {
                         array_cpuinfo_task_t_push(
@@ -2006,9 +2002,10 @@ void shmem_cpuinfo__update_ownership(pid_t pid, const cpu_set_t *restrict proces
                                     .cpuid = cpuid,
                                 });
                     }
-                    CPU_CLR(cpuid, &shdata->free_cpus);
                     verbose(VB_SHMEM, "Releasing ownership of CPU %d", cpuid);
                 }
+                CPU_CLR(cpuid, &shdata->free_cpus);
+                update_occupied_cores(NOBODY, cpuid);
             } else {
                 if (cpuinfo->guest == pid
                         && cpuinfo->state == CPU_BUSY) {
-- 
2.43.0


From 5e8d3c43ce17b6364ecd9c470862db16f5b3dde3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:34 +0000
Subject: [PATCH 03/75] fix: do not lose idle CPUs because of the last
 unsuccessful borrow

The timestamp of the last unsuccessful borrow was taken outside the lock, and the
one of the last lent CPU too, so a CPU lent in between was ignored by all further
Borrow calls. It was also set by requests restricted to some CPUs, making later
unrestricted requests to be skipped.
---
 src/LB_comm/shmem_cpuinfo.c | 39 +++++++++++++++++++------------------
 src/LB_policies/lewi_mask.c | 16 +++++++++++++--
 2 files changed, 34 insertions(+), 21 deletions(-)

diff --git a/src/LB_comm/shmem_cpuinfo.c b/src/LB_comm/shmem_cpuinfo.c
index 670a51b..0eeca66 100644
--- a/src/LB_comm/shmem_cpuinfo.c
+++ b/src/LB_comm/shmem_cpuinfo.c
@@ -550,11 +550,11 @@ int shmem_cpuinfo__finalize(pid_t pid, const char *shmem_key, int shmem_color) {
     {
         deregister_process(pid);
         //DLB_INSTR( if (is_idle(cpuid)) idle_count++; )
+
+        update_shmem_timestamp();
     }
     shmem_unlock(shm_handler);
 
-    update_shmem_timestamp();
-
     // Shared memory destruction
     close_shmem();
 
@@ -579,11 +579,11 @@ int shmem_cpuinfo_ext__postfinalize(pid_t pid) {
     shmem_lock(shm_handler);
     {
         deregister_process(pid);
+
+        update_shmem_timestamp();
     }
     shmem_unlock(shm_handler);
 
-    update_shmem_timestamp();
-
     return error;
 }
 
@@ -686,11 +686,11 @@ int shmem_cpuinfo__lend_cpu(pid_t pid, int cpuid, array_cpuinfo_task_t *restrict
                 //DLB_DEBUG( CPU_SET(i, &idle_cpus); )
             //}
         //}
+
+        update_shmem_timestamp();
     }
     shmem_unlock(shm_handler);
 
-    update_shmem_timestamp();
-
     //DLB_DEBUG( int size = CPU_COUNT(&freed_cpus); )
     //DLB_DEBUG( int post_size = CPU_COUNT(&idle_cpus); )
     //verbose(VB_SHMEM, "Lending %s", mu_to_str(&freed_cpus));
@@ -726,11 +726,11 @@ int shmem_cpuinfo__lend_cpu_mask(pid_t pid, const cpu_set_t *restrict mask,
                 //DLB_DEBUG( CPU_SET(cpu, &idle_cpus); )
             //}
         }
+
+        update_shmem_timestamp();
     }
     shmem_unlock(shm_handler);
 
-    update_shmem_timestamp();
-
     //DLB_DEBUG( int size = CPU_COUNT(&freed_cpus); )
     //DLB_DEBUG( int post_size = CPU_COUNT(&idle_cpus); )
     //verbose(VB_SHMEM, "Lending %s", mu_to_str(&freed_cpus));
@@ -1619,13 +1619,13 @@ int shmem_cpuinfo__borrow_ncpus_from_cpu_subset(
                 error = DLB_SUCCESS;
             }
         }
-    }
-    shmem_unlock(shm_handler);
 
-    /* Update timestamp if borrow did not succeed */
-    if (last_borrow != NULL && error != DLB_SUCCESS) {
-        *last_borrow = get_time_in_ns();
+        /* Update timestamp if borrow did not succeed */
+        if (last_borrow != NULL && error != DLB_SUCCESS) {
+            *last_borrow = get_time_in_ns();
+        }
     }
+    shmem_unlock(shm_handler);
 
     return error;
 }
@@ -1656,6 +1656,7 @@ static int return_cpu(pid_t pid, int cpuid, array_cpuinfo_task_t *restrict tasks
         /* state is disabled or the core is not eligible */
         cpuinfo->guest = NOBODY;
         CPU_SET(cpuid, &shdata->free_cpus);
+        update_shmem_timestamp();
     }
 
     // Possibly clear CPU from occupies cores set
@@ -1837,11 +1838,11 @@ int shmem_cpuinfo__deregister(pid_t pid, array_cpuinfo_task_t *restrict tasks) {
                 }
             }
         }
+
+        update_shmem_timestamp();
     }
     shmem_unlock(shm_handler);
 
-    update_shmem_timestamp();
-
     return error;
 }
 
@@ -1878,11 +1879,11 @@ int shmem_cpuinfo__reset(pid_t pid, array_cpuinfo_task_t *restrict tasks) {
                         });
             }
         }
+
+        update_shmem_timestamp();
     }
     shmem_unlock(shm_handler);
 
-    update_shmem_timestamp();
-
     return error;
 }
 
@@ -1930,11 +1931,11 @@ int shmem_cpuinfo__update_max_parallelism(pid_t pid, unsigned int max,
                         });
             }
         }
+
+        update_shmem_timestamp();
     }
     shmem_unlock(shm_handler);
 
-    update_shmem_timestamp();
-
     return error;
 }
 
diff --git a/src/LB_policies/lewi_mask.c b/src/LB_policies/lewi_mask.c
index 0e1430c..e61f581 100644
--- a/src/LB_policies/lewi_mask.c
+++ b/src/LB_policies/lewi_mask.c
@@ -95,6 +95,9 @@ static void lewi_mask_UpdateOwnershipInfo(const subprocess_descriptor_t *spd,
     cpu_set_t affinity_mask;
     mu_get_nodes_intersecting_with_cpuset(&affinity_mask, process_mask);
 
+    /* The set of CPUs that may be borrowed changes, reset last_borrow */
+    lewi_info->last_borrow = 0;
+
     /* Reset current priority array */
     array_cpuid_t *cpus_priority_array = &lewi_info->cpus_priority_array;
     array_cpuid_t_clear(cpus_priority_array);
@@ -633,12 +636,17 @@ int lewi_mask_AcquireCpusInMask(const subprocess_descriptor_t *spd, int ncpus,
         const cpu_set_t *mask) {
     lewi_info_t *lewi_info = spd->lewi_info;
     bool async = spd->options.mode == MODE_ASYNC;
-    int64_t *last_borrow = async ? NULL : &lewi_info->last_borrow;
 
     /* Construct a CPU array based on cpus_priority_array and mask (if present) */
     array_cpuid_t *cpu_subset = get_cpu_subset(spd);
     cpu_array_and(cpu_subset, &lewi_info->cpus_priority_array, mask);
 
+    /* The timestamp of the last unsuccessful borrow is only meaningful if the
+     * operation considers all the CPUs that the process may borrow */
+    bool all_cpus = cpu_subset->count == lewi_info->cpus_priority_array.count
+        && spd->options.lewi_affinity != LEWI_AFFINITY_SPREAD_IFEMPTY;
+    int64_t *last_borrow = !async && all_cpus ? &lewi_info->last_borrow : NULL;
+
     /* Provide a number of requested CPUs only if needed */
     int *requested_ncpus = ncpus > 0 ? &ncpus : NULL;
 
@@ -684,12 +692,16 @@ int lewi_mask_BorrowCpuMask(const subprocess_descriptor_t *spd, const cpu_set_t
 int lewi_mask_BorrowCpusInMask(const subprocess_descriptor_t *spd, int ncpus, const cpu_set_t *mask) {
     lewi_info_t *lewi_info = spd->lewi_info;
     bool async = spd->options.mode == MODE_ASYNC;
-    int64_t *last_borrow = async ? NULL : &lewi_info->last_borrow;
 
     /* Construct a CPU array based on cpus_priority_array and mask (if present) */
     array_cpuid_t *cpu_subset = get_cpu_subset(spd);
     cpu_array_and(cpu_subset, &lewi_info->cpus_priority_array, mask);
 
+    /* The timestamp of the last unsuccessful borrow is only meaningful if the
+     * operation considers all the CPUs that the process may borrow */
+    bool all_cpus = cpu_subset->count == lewi_info->cpus_priority_array.count;
+    int64_t *last_borrow = !async && all_cpus ? &lewi_info->last_borrow : NULL;
+
     /* Provide a number of requested CPUs only if needed */
     int *requested_ncpus = ncpus > 0 ? &ncpus : NULL;
 
-- 
2.43.0


From c450d0d9e5938085394aae5a6533e27f76cf24d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:43 +0000
Subject: [PATCH 04/75] fix: count every CPU in use when enforcing the max
 parallelism

Only the CPUs in the requested set were counted, and without holding the lock, so
a restricted request or concurrent threads could exceed the configured maximum.
---
 src/LB_comm/shmem_cpuinfo.c | 72 ++++++++++++++++++-------------------
 1 file changed, 36 insertions(+), 36 deletions(-)

diff --git a/src/LB_comm/shmem_cpuinfo.c b/src/LB_comm/shmem_cpuinfo.c
index 0eeca66..5b22710 100644
--- a/src/LB_comm/shmem_cpuinfo.c
+++ b/src/LB_comm/shmem_cpuinfo.c
@@ -213,6 +213,20 @@ static void update_occupied_cores(pid_t owner, int cpuid) {
     }
 }
 
+/* Number of CPUs used by the process, including the owned ones that have been
+ * already reclaimed but not yet returned */
+static int get_num_cpus_in_use(pid_t pid) {
+    int num_cpus = 0;
+    for (int cpuid = 0; cpuid < node_size; ++cpuid) {
+        const cpuinfo_t *cpuinfo = &shdata->node_info[cpuid];
+        if (cpuinfo->guest == pid
+                || (cpuinfo->owner == pid && cpuinfo->state == CPU_BUSY)) {
+            ++num_cpus;
+        }
+    }
+    return num_cpus;
+}
+
 static pid_t find_new_guest(cpuinfo_t *cpuinfo) {
     pid_t new_guest = NOBODY;
     if (cpuinfo->state == CPU_BUSY) {
@@ -1245,25 +1259,8 @@ int shmem_cpuinfo__acquire_ncpus_from_cpu_subset(
         }
     }
 
-    /* Return immediately if the process has reached the max_parallelism */
-    if (max_parallelism != 0) {
-        for (unsigned int i=0; i<cpus_priority_array->count; ++i) {
-            cpuid_t cpuid = cpus_priority_array->items[i];
-            const cpuinfo_t *cpuinfo = &shdata->node_info[cpuid];
-            if (cpuinfo->guest == pid) {
-                --max_parallelism;
-            }
-        }
-        if (max_parallelism <= 0) {
-            return DLB_NOUPDT;
-        }
-    }
-
-    /* Compute the max number of CPUs to acquire */
+    /* Max number of CPUs to acquire */
     int ncpus = requested_ncpus ? *requested_ncpus : node_size;
-    if (max_parallelism > 0) {
-        ncpus = min_int(ncpus, max_parallelism);
-    }
 
     /* Arrays for temporary CPU priority (lazy initialized and always used within the lock) */
     static array_cpuid_t owned_idle = {};
@@ -1273,6 +1270,16 @@ int shmem_cpuinfo__acquire_ncpus_from_cpu_subset(
     int error = DLB_NOUPDT;
     shmem_lock(shm_handler);
     {
+        /* Return immediately if the process has reached the max_parallelism */
+        if (max_parallelism > 0) {
+            max_parallelism -= get_num_cpus_in_use(pid);
+            if (max_parallelism <= 0) {
+                shmem_unlock(shm_handler);
+                return DLB_NOUPDT;
+            }
+            ncpus = min_int(ncpus, max_parallelism);
+        }
+
         /* Lazy init first time, clear afterwards */
         if (likely(owned_idle.items != NULL)) {
             array_cpuid_t_clear(&owned_idle);
@@ -1578,29 +1585,22 @@ int shmem_cpuinfo__borrow_ncpus_from_cpu_subset(
         return DLB_NOUPDT;
     }
 
-    /* Return immediately if the process has reached the max_parallelism */
-    if (max_parallelism != 0) {
-        for (unsigned int i=0; i<cpus_priority_array->count; ++i) {
-            cpuid_t cpuid = cpus_priority_array->items[i];
-            const cpuinfo_t *cpuinfo = &shdata->node_info[cpuid];
-            if (cpuinfo->guest == pid) {
-                --max_parallelism;
-            }
-        }
-        if (max_parallelism <= 0) {
-            return DLB_NOUPDT;
-        }
-    }
-
-    /* Compute the max number of CPUs to borrow */
+    /* Max number of CPUs to borrow */
     int ncpus = requested_ncpus ? *requested_ncpus : node_size;
-    if (max_parallelism > 0) {
-        ncpus = min_int(ncpus, max_parallelism);
-    }
 
     int error = DLB_NOUPDT;
     shmem_lock(shm_handler);
     {
+        /* Return immediately if the process has reached the max_parallelism */
+        if (max_parallelism > 0) {
+            max_parallelism -= get_num_cpus_in_use(pid);
+            if (max_parallelism <= 0) {
+                shmem_unlock(shm_handler);
+                return DLB_NOUPDT;
+            }
+            ncpus = min_int(ncpus, max_parallelism);
+        }
+
         /* Skip borrow if no CPUs in the free_cpus mask */
         if (CPU_COUNT(&shdata->free_cpus) == 0) {
             ncpus = 0;
-- 
2.43.0


From d4b7a62f51f7417ba6ddc9e72858dfeff31eae04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:43 +0000
Subject: [PATCH 05/75] fix: never assign disabled CPUs to waiting processes

DLB_Lend() iterates all the CPUs of the system, and the ones not registered by any
process were granted to the processes with a pending request. Also, do not mark as
free the CPUs that are disabled or already reclaimed by their owner.
---
 src/LB_comm/shmem_cpuinfo.c | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/LB_comm/shmem_cpuinfo.c b/src/LB_comm/shmem_cpuinfo.c
index 5b22710..5726528 100644
--- a/src/LB_comm/shmem_cpuinfo.c
+++ b/src/LB_comm/shmem_cpuinfo.c
@@ -232,6 +232,9 @@ static pid_t find_new_guest(cpuinfo_t *cpuinfo) {
     if (cpuinfo->state == CPU_BUSY) {
         /* If CPU is claimed, ignore requests and assign owner */
         new_guest = cpuinfo->owner;
+    } else if (cpuinfo->state == CPU_DISABLED) {
+        /* Disabled CPUs cannot be guested */
+        new_guest = NOBODY;
     } else if (shdata->flags.queues_enabled) {
         /* Pop first PID in queue that is eligible for this CPU */
         for (pid_t *it = queue_pid_t_front(&cpuinfo->requests);
@@ -312,7 +315,13 @@ static void deregister_cpu(cpuinfo_t *cpuinfo, int pid) {
         // Free external CPUs that I may be using
         if (cpuinfo->guest == pid) {
             cpuinfo->guest = NOBODY;
-            CPU_SET(cpuid, &shdata->free_cpus);
+            if (cpuinfo->state == CPU_BUSY) {
+                // The CPU was already reclaimed
+                cpuinfo->guest = cpuinfo->owner;
+            } else if (cpuinfo->state == CPU_LENT) {
+                CPU_SET(cpuid, &shdata->free_cpus);
+            }
+            update_occupied_cores(cpuinfo->owner, cpuid);
         }
 
         // Remove any previous CPU request
@@ -668,7 +677,7 @@ static void lend_cpu(pid_t pid, int cpuid, array_cpuinfo_task_t *restrict tasks)
     }
 
     // Add CPU to the appropriate CPU sets
-    if (cpuinfo->guest == NOBODY) {
+    if (cpuinfo->guest == NOBODY && cpuinfo->state == CPU_LENT) {
         CPU_SET(cpuid, &shdata->free_cpus);
     }
 
@@ -1655,8 +1664,10 @@ static int return_cpu(pid_t pid, int cpuid, array_cpuinfo_task_t *restrict tasks
     } else {
         /* state is disabled or the core is not eligible */
         cpuinfo->guest = NOBODY;
-        CPU_SET(cpuid, &shdata->free_cpus);
-        update_shmem_timestamp();
+        if (cpuinfo->state == CPU_LENT) {
+            CPU_SET(cpuid, &shdata->free_cpus);
+            update_shmem_timestamp();
+        }
     }
 
     // Possibly clear CPU from occupies cores set
@@ -1750,7 +1761,9 @@ static inline void shmem_cpuinfo__return_async(pid_t pid, cpuid_t cpuid) {
         cpuinfo->guest = cpuinfo->owner;
     } else {
         cpuinfo->guest = NOBODY;
-        CPU_SET(cpuid, &shdata->free_cpus);
+        if (cpuinfo->state == CPU_LENT) {
+            CPU_SET(cpuid, &shdata->free_cpus);
+        }
     }
 
     // Possibly clear CPU from occupies cores set
-- 
2.43.0


From 3910c9c9d7b606d551859efe0dbf3d8aa0d0ff93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:58 +0000
Subject: [PATCH 06/75] fix: do not attach to a shared memory that is being
 removed

The last process unlinked the shared memory after releasing the lock, so a process
initializing at the same time could end up attached to a segment that no other
process would ever see. Unlink while holding the lock and let the new process
detect it and retry. Also, close the file descriptor once mapped.
---
 src/LB_comm/shmem.c | 95 ++++++++++++++++++++++++++++++---------------
 1 file changed, 63 insertions(+), 32 deletions(-)

diff --git a/src/LB_comm/shmem.c b/src/LB_comm/shmem.c
index 9b37f5a..23b7282 100644
--- a/src/LB_comm/shmem.c
+++ b/src/LB_comm/shmem.c
@@ -129,26 +129,11 @@ static void get_shmem_filename(char *filename, const char *shmem_module,
 }
 
 
-shmem_handler_t* shmem_init(void **shdata, const shmem_props_t *shmem_props) {
-    pid_t pid = getpid();
-    const char *shmem_module = shmem_props->name;
-    verbose(VB_SHMEM, "Shared Memory Init: pid(%d), module(%s)", pid, shmem_module);
+/* Open, map and lock the shared memory, creating it if needed. Returns false if
+ * the shared memory was removed by its last process in the meantime. */
+static bool shmem_open_and_lock(shmem_handler_t *handler, const shmem_props_t *shmem_props) {
 
-    /* Allocate new Shared Memory handler */
-    shmem_handler_t *handler = malloc(sizeof(shmem_handler_t));
-
-    /* Calculate total shmem size:
-     *   shmem = shsync + shdata
-     *   shsync and shdata are both variable in size
-     */
-    size_t shsync_size = shmem_shsync__size();
-    size_t shdata_size = shmem_props->size;
-    handler->shm_size = shsync_size + shdata_size;
-
-    /* Get /dev/shm/ file names to create */
-    const char *shmem_key = shmem_props->key;
-    int shmem_color = shmem_props->color;
-    get_shmem_filename(handler->shm_filename, shmem_module, shmem_key, shmem_color);
+    const char *shmem_module = shmem_props->name;
 
     /* Obtain a file descriptor for the shmem */
     int fd = shm_open(handler->shm_filename, O_CREAT | O_RDWR, S_IRUSR | S_IWUSR);
@@ -167,9 +152,8 @@ shmem_handler_t* shmem_init(void **shdata, const shmem_props_t *shmem_props) {
         fatal("mmap error: %s",  strerror(errno));
     }
 
-    /* Set the address for both structs */
+    /* Set the address for the sync struct */
     handler->shsync = (shmem_sync_t*) handler->shm_addr;
-    *shdata = handler->shm_addr + shsync_size;
 
     if (__sync_bool_compare_and_swap(&handler->shsync->initializing, 0, 1)) {
         /* Shared Memory creator */
@@ -201,8 +185,7 @@ shmem_handler_t* shmem_init(void **shdata, const shmem_props_t *shmem_props) {
         verbose(VB_SHMEM, "Attached to Shared Memory (%s)", shmem_module);
     }
 
-    /* Check consistency */
-    verbose(VB_SHMEM, "Checking shared memory consistency (%s)", shmem_module);
+    /* Lock */
     struct timespec timeout;
     get_time_real(&timeout);
     timeout.tv_sec += SHMEM_TIMEOUT_SECONDS;
@@ -216,6 +199,54 @@ shmem_handler_t* shmem_init(void **shdata, const shmem_props_t *shmem_props) {
     } else if (error != 0) {
         fatal("pthread_mutex_timedlock error: %s", strerror(error));
     }
+
+    /* Between shm_open and the lock, the last process attached may have already
+     * removed the shared memory. It is always unlinked while holding the lock. */
+    struct stat shm_stat;
+    if (fstat(fd, &shm_stat) == -1) {
+        fatal("fstat error: %s", strerror(errno));
+    }
+    bool removed = shm_stat.st_nlink == 0;
+    if (removed) {
+        pthread_mutex_unlock(&handler->shsync->shmem_mutex);
+        if (munmap(handler->shm_addr, handler->shm_size) != 0) {
+            fatal("munmap error: %s", strerror(errno));
+        }
+    }
+
+    close(fd);
+
+    return !removed;
+}
+
+shmem_handler_t* shmem_init(void **shdata, const shmem_props_t *shmem_props) {
+    pid_t pid = getpid();
+    const char *shmem_module = shmem_props->name;
+    verbose(VB_SHMEM, "Shared Memory Init: pid(%d), module(%s)", pid, shmem_module);
+
+    /* Allocate new Shared Memory handler */
+    shmem_handler_t *handler = malloc(sizeof(shmem_handler_t));
+
+    /* Calculate total shmem size:
+     *   shmem = shsync + shdata
+     *   shsync and shdata are both variable in size
+     */
+    size_t shsync_size = shmem_shsync__size();
+    size_t shdata_size = shmem_props->size;
+    handler->shm_size = shsync_size + shdata_size;
+
+    /* Get /dev/shm/ file names to create */
+    const char *shmem_key = shmem_props->key;
+    int shmem_color = shmem_props->color;
+    get_shmem_filename(handler->shm_filename, shmem_module, shmem_key, shmem_color);
+
+    /* Retry if another process is removing the shmem at the same time */
+    while(!shmem_open_and_lock(handler, shmem_props));
+
+    *shdata = handler->shm_addr + shsync_size;
+
+    /* Check consistency */
+    verbose(VB_SHMEM, "Checking shared memory consistency (%s)", shmem_module);
     shmem_consistency_check_version(handler->shsync->shsync_version, SHMEM_SYNC_VERSION);
     shmem_consistency_check_version(handler->shsync->shmem_version, shmem_props->version);
     shmem_consistency_check_pids(handler->shsync->pidlist, pid, shmem_props->cleanup_fn, *shdata);
@@ -234,7 +265,15 @@ void shmem_finalize(shmem_handler_t* handler, bool (*is_empty_fn)(void)) {
     shmem_lock(handler);
     bool is_empty = is_empty_fn ? is_empty_fn() : true;
     bool is_last_one = shmem_consistency_remove_pid(handler->shsync->pidlist, getpid());
-    bool delete_shmem = is_empty && is_last_one;
+    /* Only the last process unlinks shmem. This needs to be done while holding the
+     * lock, otherwise a new process could attach to it in between. */
+    if (is_empty && is_last_one) {
+        verbose(VB_SHMEM, "Removing shared memory %s", handler->shm_filename);
+        if (shm_unlink(handler->shm_filename) != 0 && errno != ENOENT) {
+            shmem_unlock(handler);
+            fatal("shm_unlink error: %s", strerror(errno));
+        }
+    }
     shmem_unlock(handler);
 
     /* Here we should destroy the pthread mutex but another process may open
@@ -246,14 +285,6 @@ void shmem_finalize(shmem_handler_t* handler, bool (*is_empty_fn)(void)) {
         fatal("munmap error: %s", strerror(errno));
     }
 
-    /* Only the last process unlinks shmem */
-    if (delete_shmem) {
-        verbose(VB_SHMEM, "Removing shared memory %s", handler->shm_filename);
-        if (shm_unlink(handler->shm_filename) != 0 && errno != ENOENT) {
-            fatal("shm_unlink error: %s", strerror(errno));
-        }
-    }
-
     free(handler);
 }
 
-- 
2.43.0


From 4112cff017ad1d660fd2eceda6ef3474f537e55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:25 +0000
Subject: [PATCH 07/75] fix: register the process in the shared memory even if
 slots are freed by the cleanup

When the only available slots belonged to dead processes, these were cleaned up but
the new process was not registered, so the shared memory could be removed while in use.
---
 src/LB_comm/shmem.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/LB_comm/shmem.c b/src/LB_comm/shmem.c
index 23b7282..151ac07 100644
--- a/src/LB_comm/shmem.c
+++ b/src/LB_comm/shmem.c
@@ -57,12 +57,7 @@ static bool shmem_consistency_check_pids(pid_t *pidlist, pid_t pid,
     bool registered = false;
     int i;
     for(i=0; i<mu_get_system_size(); ++i) {
-        if (pidlist[i] == 0) {
-            if (!registered) {
-                pidlist[i] = pid;
-                registered = true;
-            }
-        } else {
+        if (pidlist[i] != 0) {
             if (kill(pidlist[i], 0) == -1) {
                 /* Process pidlist[i] is registered and does not exist */
                 if (cleanup_fn) {
@@ -79,6 +74,11 @@ static bool shmem_consistency_check_pids(pid_t *pidlist, pid_t pid,
                 }
             }
         }
+        /* The slot may have been empty or just cleaned up */
+        if (pidlist[i] == 0 && !registered) {
+            pidlist[i] = pid;
+            registered = true;
+        }
     }
     return registered;
 }
-- 
2.43.0


From 6a58c9174445dcc9a0c76ee0065d6cf207228528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:25 +0000
Subject: [PATCH 08/75] fix: remove the pending requests of dead processes

Global requests of a process that died were never removed and CPUs kept being
assigned to it.
---
 src/LB_comm/shmem_cpuinfo.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/LB_comm/shmem_cpuinfo.c b/src/LB_comm/shmem_cpuinfo.c
index 5726528..fb41382 100644
--- a/src/LB_comm/shmem_cpuinfo.c
+++ b/src/LB_comm/shmem_cpuinfo.c
@@ -343,6 +343,13 @@ static void cleanup_shmem(void *shdata_ptr, int pid) {
         cpuinfo_t *cpuinfo = &shared_data->node_info[cpuid];
         deregister_cpu(cpuinfo, pid);
     }
+
+    // Remove any previous global request
+    if (shared_data->flags.queues_enabled) {
+        queue_lewi_mask_request_t_remove(&shared_data->lewi_mask_requests, pid);
+    }
+
+    update_shmem_timestamp();
 }
 
 static void open_shmem(const char *shmem_key, int shmem_color) {
-- 
2.43.0


From 1388db5ede4a687cbd6512bf999f6b6277568fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:27 +0000
Subject: [PATCH 09/75] fix: out of blocking call, acquire only the CPUs lent
 by the thread

With SMT, the whole core was acquired but the enable callbacks are omitted because
only the CPUs lent in the blocking call are supposed to be affected, so the rest of
the CPUs in the core were assigned to a process that did not know about it.
---
 src/LB_comm/shmem_cpuinfo.c | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/LB_comm/shmem_cpuinfo.c b/src/LB_comm/shmem_cpuinfo.c
index fb41382..71e63df 100644
--- a/src/LB_comm/shmem_cpuinfo.c
+++ b/src/LB_comm/shmem_cpuinfo.c
@@ -1230,10 +1230,16 @@ int shmem_cpuinfo__acquire_from_cpu_subset(
         const array_cpuid_t *restrict array_cpuid,
         array_cpuinfo_task_t *restrict tasks) {
 
-    int error;
+    int error = DLB_NOUPDT;
     shmem_lock(shm_handler);
     {
-        error = acquire_cpus_in_array_cpuid_t(pid, array_cpuid, NULL, tasks);
+        /* Acquire only the CPUs in the array, and not the rest of CPUs in the core */
+        for (unsigned int i = 0; i < array_cpuid->count; ++i) {
+            int local_error = acquire_cpu(pid, array_cpuid->items[i], tasks);
+            if (local_error == DLB_SUCCESS || local_error == DLB_NOTED) {
+                if (error != DLB_NOTED) error = local_error;
+            }
+        }
     }
     shmem_unlock(shm_handler);
     return error;
@@ -1575,10 +1581,15 @@ int shmem_cpuinfo__borrow_from_cpu_subset(
         const array_cpuid_t *restrict array_cpuid,
         array_cpuinfo_task_t *restrict tasks) {
 
-    int error;
+    int error = DLB_NOUPDT;
     shmem_lock(shm_handler);
     {
-        error = borrow_cpus_in_array_cpuid_t(pid, array_cpuid, NULL, tasks);
+        /* Borrow only the CPUs in the array, and not the rest of CPUs in the core */
+        for (unsigned int i = 0; i < array_cpuid->count; ++i) {
+            if (borrow_cpu(pid, array_cpuid->items[i], tasks) == DLB_SUCCESS) {
+                error = DLB_SUCCESS;
+            }
+        }
     }
     shmem_unlock(shm_handler);
     return error;
-- 
2.43.0


From c6ce6ff1e821fb2531d534efb3d8904cb98f7de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:12 +0000
Subject: [PATCH 10/75] fix: notify all the borrowed CPUs lost in a blocking
 call

If only some of the borrowed CPUs could be recovered, or if the thread had also owned
CPUs, the process was never notified about the lost ones. Also, do not disable in
Return a CPU that was lost in a blocking call but borrowed again afterwards.
---
 src/LB_policies/lewi_mask.c | 41 +++++++++++++++++++++++--------------
 1 file changed, 26 insertions(+), 15 deletions(-)

diff --git a/src/LB_policies/lewi_mask.c b/src/LB_policies/lewi_mask.c
index e61f581..2e402d1 100644
--- a/src/LB_policies/lewi_mask.c
+++ b/src/LB_policies/lewi_mask.c
@@ -206,6 +206,7 @@ static inline array_cpuinfo_task_t* get_tasks(const subprocess_descriptor_t *spd
 static void resolve_cpuinfo_tasks(const subprocess_descriptor_t *restrict spd,
         array_cpuinfo_task_t *restrict tasks) {
 
+    lewi_info_t *lewi_info = spd->lewi_info;
     size_t tasks_count = tasks->count;
 
     /* We don't need it strictly sorted, but if there are 3 or more tasks
@@ -230,6 +231,7 @@ static void resolve_cpuinfo_tasks(const subprocess_descriptor_t *restrict spd,
             const cpuinfo_task_t *task = &tasks->items[i];
             if (task->pid == spd->id) {
                 if (task->action == ENABLE_CPU) {
+                    CPU_CLR(task->cpuid, &lewi_info->pending_reclaimed_cpus);
                     enable_cpu(&spd->pm, task->cpuid);
                 }
                 else if (task->action == DISABLE_CPU) {
@@ -263,6 +265,8 @@ static void resolve_cpuinfo_tasks(const subprocess_descriptor_t *restrict spd,
             const cpuinfo_task_t *task = &tasks->items[i];
             if (task->pid == spd->id) {
                 if (CPU_COUNT(&cpus_to_enable) > 0) {
+                    mu_substract(&lewi_info->pending_reclaimed_cpus,
+                            &lewi_info->pending_reclaimed_cpus, &cpus_to_enable);
                     enable_cpu_set(&spd->pm, &cpus_to_enable);
                 }
                 if (CPU_COUNT(&cpus_to_disable) > 0) {
@@ -494,27 +498,34 @@ int lewi_mask_OutOfBlockingCall(const subprocess_descriptor_t *spd) {
          * (if some owned CPU was already reclaimed, we forget about non-owned) */
         cpu_set_t non_owned_cpus;
         mu_substract(&non_owned_cpus, &cpu_set, &spd->process_mask);
-        if (mu_count(&non_owned_cpus) > 0
-                && mu_count(&owned_cpus) == 0) {
+        if (mu_count(&non_owned_cpus) > 0) {
 
-            /* Construct a CPU array from non_owned_cpus */
-            array_cpuid_t *cpu_subset = get_cpu_subset(spd);
-            cpu_array_from_cpuset(cpu_subset, &non_owned_cpus);
+            if (mu_count(&owned_cpus) == 0) {
+                /* Construct a CPU array from non_owned_cpus */
+                array_cpuid_t *cpu_subset = get_cpu_subset(spd);
+                cpu_array_from_cpuset(cpu_subset, &non_owned_cpus);
 
-            /* Borrow CPUs, but also ignoring the enable callbacks */
-            array_cpuinfo_task_t *tasks = get_tasks(spd);
-            error = shmem_cpuinfo__borrow_from_cpu_subset(spd->id, cpu_subset, tasks);
+                /* Borrow CPUs, but also ignoring the enable callbacks */
+                array_cpuinfo_task_t *tasks = get_tasks(spd);
+                error = shmem_cpuinfo__borrow_from_cpu_subset(spd->id, cpu_subset, tasks);
 
-            if (error != DLB_SUCCESS) {
-                /* Annotate the CPU as pending to bypass the shared memory for the next query */
-                mu_or(&lewi_info->pending_reclaimed_cpus, &lewi_info->pending_reclaimed_cpus,
-                        &non_owned_cpus);
+                /* Keep only the CPUs that could not be borrowed */
+                for (size_t i = 0; i < tasks->count; ++i) {
+                    CPU_CLR(tasks->items[i].cpuid, &non_owned_cpus);
+                }
+            }
 
-                /* We lost the CPU while in MPI.
-                    * In async mode, we can just disable the CPU.
-                    * In polling mode, the process needs to call Return */
+            /* We lost these CPUs while in MPI. */
+            if (mu_count(&non_owned_cpus) > 0) {
                 if (spd->options.mode == MODE_ASYNC) {
+                    /* In async mode, we can just disable the CPUs. */
                     disable_cpu_set(&spd->pm, &non_owned_cpus);
+                } else {
+                    /* In polling mode, the process needs to call Return.
+                     * Annotate the CPUs as pending to bypass the shared memory
+                     * for the next query */
+                    mu_or(&lewi_info->pending_reclaimed_cpus,
+                            &lewi_info->pending_reclaimed_cpus, &non_owned_cpus);
                 }
             }
         }
-- 
2.43.0


From 7e763c62783c7e364322f36a8e4b466cc8c400fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:31 +0000
Subject: [PATCH 11/75] fix: do not abort if the new owner of a CPU updates its
 mask before the old one

Without LeWI, if a process lost a CPU through DROM and the new owner polled first, the
old owner aborted in its next PollDROM with 'tasks pointer is NULL'.
---
 src/LB_comm/shmem_cpuinfo.c | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/LB_comm/shmem_cpuinfo.c b/src/LB_comm/shmem_cpuinfo.c
index 71e63df..8b330ab 100644
--- a/src/LB_comm/shmem_cpuinfo.c
+++ b/src/LB_comm/shmem_cpuinfo.c
@@ -2041,16 +2041,17 @@ void shmem_cpuinfo__update_ownership(pid_t pid, const cpu_set_t *restrict proces
             } else {
                 if (cpuinfo->guest == pid
                         && cpuinfo->state == CPU_BUSY) {
-                    /* 'tasks' may be NULL if LeWI is disabled, but if the process
-                     * is guesting an external CPU, LeWI should be enabled */
-                    if (unlikely(tasks == NULL)) {
-                        shmem_unlock(shm_handler);
-                        fatal("tasks pointer is NULL in %s. Please report bug at %s",
-                                __func__, PACKAGE_BUGREPORT);
-                    }
                     // The CPU has been either stolen or reclaimed,
                     // return it anyway
-                    return_cpu(pid, cpuid, tasks);
+                    if (tasks) {
+                        return_cpu(pid, cpuid, tasks);
+                    } else {
+                        /* 'tasks' may be NULL if LeWI is disabled. In that case, the
+                         * process is still guesting a CPU that used to own because the
+                         * new owner has updated its mask first */
+                        cpuinfo->guest = cpuinfo->owner;
+                        update_occupied_cores(cpuinfo->owner, cpuid);
+                    }
                 }
             }
         }
-- 
2.43.0


From bfec0f93bca0297a117018e5b34ea010240b620b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:32 +0000
Subject: [PATCH 12/75] fix: do not acquire or release again the CPUs of a
 pending mask

If a process with a pending mask set its own mask to the same value, CPUs already
released were released again even if they were already assigned to another process,
and the CPUs already acquired were considered not available.
---
 src/LB_comm/shmem_procinfo.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/LB_comm/shmem_procinfo.c b/src/LB_comm/shmem_procinfo.c
index e990399..454175b 100644
--- a/src/LB_comm/shmem_procinfo.c
+++ b/src/LB_comm/shmem_procinfo.c
@@ -833,8 +833,14 @@ static int shmem_procinfo__setprocessmask_self(const cpu_set_t *mask, dlb_drom_f
     pinfo_t *process = my_pinfo;
     shmem_lock(shm_handler);
     {
-        if (!process->dirty || CPU_EQUAL(mask, &process->future_process_mask)) {
+        if (!process->dirty) {
             error = set_new_mask(process, mask, false /* sync */, return_stolen, free_cpu_mask);
+        } else if (CPU_EQUAL(mask, &process->future_process_mask)) {
+            /* The pending mask is the same, CPUs were already acquired and released */
+            error = DLB_SUCCESS;
+            if (free_cpu_mask != NULL) {
+                mu_substract(free_cpu_mask, &process->current_process_mask, mask);
+            }
         } else {
             error = DLB_ERR_PDIRTY;
         }
-- 
2.43.0


From d1c32401b1892c3d1a6fba4b28a8f378e709d989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:32 +0000
Subject: [PATCH 13/75] fix: check for pending masks with the lock acquired in
 PollDROM

Two threads polling at the same time could both get the same update, or a poll could
report an update that was being cancelled.
---
 src/LB_comm/shmem_procinfo.c | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/LB_comm/shmem_procinfo.c b/src/LB_comm/shmem_procinfo.c
index 454175b..0213585 100644
--- a/src/LB_comm/shmem_procinfo.c
+++ b/src/LB_comm/shmem_procinfo.c
@@ -971,17 +971,22 @@ int shmem_procinfo__polldrom(pid_t pid, int *new_cpus, cpu_set_t *new_mask) {
         } else {
             shmem_lock(shm_handler);
             {
-                // Update output parameters
-                memcpy(new_mask, &process->future_process_mask, sizeof(cpu_set_t));
-                if (new_cpus != NULL) *new_cpus = CPU_COUNT(&process->future_process_mask);
-
-                // Upate local info
-                memcpy(&process->current_process_mask, &process->future_process_mask,
-                        sizeof(cpu_set_t));
-                process->dirty = false;
+                // Check again, the update may have been cancelled or already polled
+                if (process->dirty) {
+                    // Update output parameters
+                    memcpy(new_mask, &process->future_process_mask, sizeof(cpu_set_t));
+                    if (new_cpus != NULL) *new_cpus = CPU_COUNT(&process->future_process_mask);
+
+                    // Upate local info
+                    memcpy(&process->current_process_mask, &process->future_process_mask,
+                            sizeof(cpu_set_t));
+                    process->dirty = false;
+                    error = DLB_SUCCESS;
+                } else {
+                    error = DLB_NOUPDT;
+                }
             }
             shmem_unlock(shm_handler);
-            error = DLB_SUCCESS;
         }
     }
     return error;
-- 
2.43.0


From 4cf7199e3069eb118809859f4f9b7c98d4737092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:32 +0000
Subject: [PATCH 14/75] fix: return error if the process finalizes during a
 synchronous mask query

The query returned success and the contents of an empty or reused slot.
---
 src/LB_comm/shmem_procinfo.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/LB_comm/shmem_procinfo.c b/src/LB_comm/shmem_procinfo.c
index 0213585..f112539 100644
--- a/src/LB_comm/shmem_procinfo.c
+++ b/src/LB_comm/shmem_procinfo.c
@@ -801,7 +801,11 @@ int shmem_procinfo__getprocessmask(pid_t pid, cpu_set_t *mask, dlb_drom_flags_t
             // Polling
             shmem_lock(shm_handler);
             {
-                if (!process->dirty) {
+                if (process->pid != pid) {
+                    // process no longer valid
+                    error = DLB_ERR_NOPROC;
+                    done = true;
+                } else if (!process->dirty) {
                     memcpy(mask, &process->current_process_mask, sizeof(cpu_set_t));
                     done = true;
                 }
-- 
2.43.0


From 92895851438d9c99c3f6ae7c67ae998b5f06ec6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:32 +0000
Subject: [PATCH 15/75] fix: find the process with the lock acquired when
 finalizing procinfo

The slot could be finalized externally, and even reused by another process, before
the lock was acquired.
---
 src/LB_comm/shmem_procinfo.c | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/LB_comm/shmem_procinfo.c b/src/LB_comm/shmem_procinfo.c
index f112539..ff0b21d 100644
--- a/src/LB_comm/shmem_procinfo.c
+++ b/src/LB_comm/shmem_procinfo.c
@@ -620,15 +620,14 @@ int shmem_procinfo__finalize(pid_t pid, bool return_stolen, const char *shmem_ke
         }
     }
 
-    // Check that pid exists
-    pinfo_t *process = get_process(pid);
-    if (unlikely(process == NULL)) {
-        error = DLB_ERR_NOPROC;
-    }
-
+    pinfo_t *process;
     shmem_lock(shm_handler);
     {
-        if (process) {
+        // Check that pid exists
+        process = get_process(pid);
+        if (unlikely(process == NULL)) {
+            error = DLB_ERR_NOPROC;
+        } else {
             // Unregister our process mask, or future mask if we are dirty
             if (process->dirty) {
                 unregister_mask(process, &process->future_process_mask, return_stolen);
-- 
2.43.0


From 0036730a9b8531dabe1807bd2de6e9fca0034662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:09 +0000
Subject: [PATCH 16/75] fix: detect processes already registered regardless of
 their slot

If there was an empty slot before the one of the registered process, the same pid could
be registered twice.
---
 src/LB_comm/shmem_procinfo.c | 47 +++++++++++++++++-------------------
 1 file changed, 22 insertions(+), 25 deletions(-)

diff --git a/src/LB_comm/shmem_procinfo.c b/src/LB_comm/shmem_procinfo.c
index ff0b21d..61cc9f9 100644
--- a/src/LB_comm/shmem_procinfo.c
+++ b/src/LB_comm/shmem_procinfo.c
@@ -292,11 +292,6 @@ static int shmem_procinfo__init_(pid_t pid, pid_t preinit_pid, const cpu_set_t *
                 /* This process is already registered */
                 error = DLB_ERR_INIT;
             }
-            if (empty_spot
-                    && ((preinit_pid && preinit_process) || !preinit_pid)) {
-                /* Everything needed is found */
-                break;
-            }
         }
 
         // If it's a new process, initialize structure
@@ -498,32 +493,34 @@ int shmem_procinfo_ext__preinit(pid_t pid, const cpu_set_t *mask, dlb_drom_flags
                 // PID already registered
                 error = DLB_ERR_INIT;
                 break;
-            } else if (shdata->process_info[p].pid == NOBODY) {
+            } else if (process == NULL
+                    && shdata->process_info[p].pid == NOBODY) {
+                // First empty spot
                 process = &shdata->process_info[p];
-                *process = (const pinfo_t){
-                    .pid = pid,
-                    .preregistered = true};
-
-                // Register process mask into the system
-                if (!steal) {
-                    // If no stealing, register as usual
-                    error = register_mask(process, mask);
-                } else {
-                    // Otherwise, steal CPUs if necessary
-                    error = set_new_mask(process, mask, sync, return_stolen, NULL);
-                }
-                if (error) {
-                    // Release shared memory spot
-                    process->pid = NOBODY;
-                    break;
-                }
+            }
+        }
 
+        if (!error && process != NULL) {
+            *process = (const pinfo_t){
+                .pid = pid,
+                .preregistered = true};
+
+            // Register process mask into the system
+            if (!steal) {
+                // If no stealing, register as usual
+                error = register_mask(process, mask);
+            } else {
+                // Otherwise, steal CPUs if necessary
+                error = set_new_mask(process, mask, sync, return_stolen, NULL);
+            }
+            if (error) {
+                // Release shared memory spot
+                process->pid = NOBODY;
+            } else {
                 // Set process initial values
                 memcpy(&process->current_process_mask, mask, sizeof(cpu_set_t));
                 memcpy(&process->future_process_mask, mask, sizeof(cpu_set_t));
                 process->dirty = false;
-
-                break;
             }
         }
     }
-- 
2.43.0


From ab9f0eed79ca93120efb80861ce6e24d463ae754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:09 +0000
Subject: [PATCH 17/75] fix: undo the pre-registration if the CPUs cannot be
 registered

The process was left registered in procinfo after a failed PreInit, and its CPUs could
not be used by any other process.
---
 src/LB_core/DLB_kernel.c      | 8 +++++++-
 src/apis/DLB_interface_drom.c | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/LB_core/DLB_kernel.c b/src/LB_core/DLB_kernel.c
index 2b23cc7..3e96fa0 100644
--- a/src/LB_core/DLB_kernel.c
+++ b/src/LB_core/DLB_kernel.c
@@ -269,7 +269,13 @@ int PreInitialize(subprocess_descriptor_t *spd, const cpu_set_t *mask,
     error = error ? error : shmem_cpuinfo_ext__init(spd->options.shm_key, spd->options.lewi_color);
     error = error ? error : shmem_procinfo_ext__init(spd->options.shm_key);
     error = error ? error : shmem_procinfo_ext__preinit(spd->id, mask, 0);
-    error = error ? error : shmem_cpuinfo_ext__preinit(spd->id, mask, 0);
+    if (error == DLB_SUCCESS) {
+        error = shmem_cpuinfo_ext__preinit(spd->id, mask, 0);
+        if (error != DLB_SUCCESS) {
+            // Undo the registration in procinfo
+            shmem_procinfo_ext__postfinalize(spd->id, false);
+        }
+    }
     // Close shmems even if there was an error
     int cpuinfo_finalize_err = shmem_cpuinfo_ext__finalize();
     error = error ? error : cpuinfo_finalize_err;
diff --git a/src/apis/DLB_interface_drom.c b/src/apis/DLB_interface_drom.c
index c1dff78..05745d4 100644
--- a/src/apis/DLB_interface_drom.c
+++ b/src/apis/DLB_interface_drom.c
@@ -103,7 +103,13 @@ int DLB_DROM_PreInit(int pid, const_dlb_cpu_set_t mask, dlb_drom_flags_t flags,
     }
 
     int error = shmem_procinfo_ext__preinit(pid, mask, flags);
-    error = error ? error : shmem_cpuinfo_ext__preinit(pid, mask, flags);
+    if (error == DLB_SUCCESS) {
+        error = shmem_cpuinfo_ext__preinit(pid, mask, flags);
+        if (error != DLB_SUCCESS) {
+            // Undo the registration in procinfo
+            shmem_procinfo_ext__postfinalize(pid, flags & DLB_RETURN_STOLEN);
+        }
+    }
     return error;
 }
 
-- 
2.43.0


From 94483b0293fb3ec8d7f0ba381d45bc36c704d180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:09 +0000
Subject: [PATCH 18/75] fix: leave the process uninitialized and unregistered
 if DLB_Init fails

If DLB_Init failed, the process was considered initialized anyway and any following DLB
call could access a shared memory already closed. Also, if the registration failed in
cpuinfo, the process was left registered in procinfo.
---
 src/LB_comm/shmem_procinfo.c |  2 +-
 src/LB_core/DLB_kernel.c     |  7 ++++++-
 src/apis/DLB_interface.c     | 12 ++++++++++--
 3 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/LB_comm/shmem_procinfo.c b/src/LB_comm/shmem_procinfo.c
index 61cc9f9..0bd87de 100644
--- a/src/LB_comm/shmem_procinfo.c
+++ b/src/LB_comm/shmem_procinfo.c
@@ -426,7 +426,7 @@ static int shmem_procinfo__init_(pid_t pid, pid_t preinit_pid, const cpu_set_t *
                     __FUNCTION__, preinit_pid, preinit_process, error, PACKAGE_BUGREPORT);
         }
 
-        if (process) {
+        if (process && error >= DLB_SUCCESS) {
             // Save pointer for faster access
             my_pinfo = process;
         }
diff --git a/src/LB_core/DLB_kernel.c b/src/LB_core/DLB_kernel.c
index 3e96fa0..da81062 100644
--- a/src/LB_core/DLB_kernel.c
+++ b/src/LB_core/DLB_kernel.c
@@ -149,7 +149,12 @@ int Initialize(subprocess_descriptor_t *spd, pid_t id, int ncpus,
         // Initialize cpuinfo
         error = shmem_cpuinfo__init(spd->id, spd->options.preinit_pid,
                 &spd->process_mask, spd->options.shm_key, spd->options.lewi_color);
-        if (error != DLB_SUCCESS) return error;
+        if (error != DLB_SUCCESS) {
+            // Undo the registration in procinfo
+            shmem_procinfo__finalize(spd->id, spd->options.debug_opts & DBG_RETURNSTOLEN,
+                    spd->options.shm_key);
+            return error;
+        }
     } else if (spd->options.talp) {
         // If mask is not needed but TALP is enabled, we still need to
         // initialize shmem_procinfo but allowing CPU sharing
diff --git a/src/apis/DLB_interface.c b/src/apis/DLB_interface.c
index d748ca4..f91c122 100644
--- a/src/apis/DLB_interface.c
+++ b/src/apis/DLB_interface.c
@@ -44,7 +44,11 @@
 int DLB_Init(int ncpus, const_dlb_cpu_set_t mask, const char *dlb_args) {
     spd_enter_dlb(thread_spd);
     if (__sync_bool_compare_and_swap(&thread_spd->dlb_initialized, false, true) ) {
-        return Initialize(thread_spd, getpid(), ncpus, mask, dlb_args);
+        int error = Initialize(thread_spd, getpid(), ncpus, mask, dlb_args);
+        if (error < DLB_SUCCESS) {
+            thread_spd->dlb_initialized = false;
+        }
+        return error;
     } else {
         return DLB_ERR_INIT;
     }
@@ -78,7 +82,11 @@ int DLB_PreInit(const_dlb_cpu_set_t mask, char ***next_environ) {
         snprintf(flag, 32, "--preinit-pid=%d", getpid());
         dlb_setenv("DLB_ARGS", flag, next_environ, ENV_APPEND);
 
-        return PreInitialize(thread_spd, mask, NULL);
+        int error = PreInitialize(thread_spd, mask, NULL);
+        if (error < DLB_SUCCESS) {
+            thread_spd->dlb_preinitialized = false;
+        }
+        return error;
     } else {
         return DLB_ERR_INIT;
     }
-- 
2.43.0


From 62f61f3d87ca2ef1bc9272beab66f16bfae37777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:30 +0000
Subject: [PATCH 19/75] fix: update the CPU ownership when GetProcessMask
 delivers a new mask

GetProcessMask replaces PollDROM if there is a new mask for the current process but the
CPU ownership was not updated, so LeWI kept using the old mask and the CPUs that the
process had lost could not be registered by others.
---
 src/LB_core/DLB_kernel.c      | 15 +++++++++++++++
 src/LB_core/DLB_kernel.h      |  1 +
 src/apis/DLB_interface_drom.c |  5 +++--
 3 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/LB_core/DLB_kernel.c b/src/LB_core/DLB_kernel.c
index da81062..a03c719 100644
--- a/src/LB_core/DLB_kernel.c
+++ b/src/LB_core/DLB_kernel.c
@@ -737,6 +737,21 @@ int poll_drom_update(const subprocess_descriptor_t *spd) {
     return error;
 }
 
+int drom_getprocessmask(int pid, dlb_cpu_set_t mask, dlb_drom_flags_t flags) {
+    int error = shmem_procinfo__getprocessmask(pid, mask, flags);
+    if (error == DLB_NOTED && thread_spd->dlb_initialized) {
+        /* A new mask has been obtained for the current process, which replaces poll_drom */
+        if (thread_spd->options.lewi) {
+            /* If LeWI, resolve reclaimed CPUs */
+            thread_spd->lb_funcs.update_ownership(thread_spd, mask);
+        } else {
+            /* Otherwise, udate owner and guest data */
+            shmem_cpuinfo__update_ownership(thread_spd->id, mask, NULL);
+        }
+    }
+    return error;
+}
+
 int drom_setprocessmask(int pid, const_dlb_cpu_set_t mask, dlb_drom_flags_t flags) {
     cpu_set_t free_cpu_mask;
     int error = shmem_procinfo__setprocessmask(pid, mask, flags, &free_cpu_mask);
diff --git a/src/LB_core/DLB_kernel.h b/src/LB_core/DLB_kernel.h
index 6b4f3d1..5284ff0 100644
--- a/src/LB_core/DLB_kernel.h
+++ b/src/LB_core/DLB_kernel.h
@@ -84,6 +84,7 @@ int return_cpu_mask(const subprocess_descriptor_t *spd, const cpu_set_t *mask);
 /* DROM Responsive */
 int poll_drom(const subprocess_descriptor_t *spd, int *new_cpus, cpu_set_t *new_mask);
 int poll_drom_update(const subprocess_descriptor_t *spd);
+int drom_getprocessmask(int pid, dlb_cpu_set_t mask, dlb_drom_flags_t flags);
 int drom_setprocessmask(int pid, const_dlb_cpu_set_t mask, dlb_drom_flags_t flags);
 
 /* Misc */
diff --git a/src/apis/DLB_interface_drom.c b/src/apis/DLB_interface_drom.c
index 05745d4..52c4374 100644
--- a/src/apis/DLB_interface_drom.c
+++ b/src/apis/DLB_interface_drom.c
@@ -65,10 +65,11 @@ int DLB_DROM_GetPidList(int *pidlist, int *nelems, int max_len) {
 }
 
 int DLB_DROM_GetProcessMask(int pid, dlb_cpu_set_t mask, dlb_drom_flags_t flags) {
-    int error = shmem_procinfo__getprocessmask(pid, mask, flags);
+    spd_enter_dlb(thread_spd);
+    int error = drom_getprocessmask(pid, mask, flags);
     if (error == DLB_ERR_NOSHMEM) {
         DLB_DROM_Attach();
-        error = shmem_procinfo__getprocessmask(pid, mask, flags);
+        error = drom_getprocessmask(pid, mask, flags);
         DLB_DROM_Detach();
     }
     return error;
-- 
2.43.0


From 226053eb25ea972818dfa9227f0484a76ba812ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:46 +0000
Subject: [PATCH 20/75] fix: give the stolen CPUs back only to their owners
 when a synchronous mask change fails

---
 src/LB_comm/shmem_procinfo.c | 55 +++++++++++++++++++++++++++---------
 1 file changed, 42 insertions(+), 13 deletions(-)

diff --git a/src/LB_comm/shmem_procinfo.c b/src/LB_comm/shmem_procinfo.c
index 0bd87de..e470fd3 100644
--- a/src/LB_comm/shmem_procinfo.c
+++ b/src/LB_comm/shmem_procinfo.c
@@ -91,6 +91,7 @@ static pinfo_t *my_pinfo = NULL;
 
 static int set_new_mask(pinfo_t *process, const cpu_set_t *mask, bool sync,
         bool return_stolen, cpu_set_t *free_cpu_mask);
+static int unregister_mask(pinfo_t *owner, const cpu_set_t *mask, bool return_stolen);
 static void close_shmem(void);
 
 static pid_t get_parent_pid(pid_t pid) {
@@ -514,8 +515,11 @@ int shmem_procinfo_ext__preinit(pid_t pid, const cpu_set_t *mask, dlb_drom_flags
                 error = set_new_mask(process, mask, sync, return_stolen, NULL);
             }
             if (error) {
-                // Release shared memory spot
-                process->pid = NOBODY;
+                // Release shared memory spot, and CPUs if the mask was changed while stealing
+                if (process->pid == pid) {
+                    unregister_mask(process, &process->future_process_mask, return_stolen);
+                    *process = (const pinfo_t){0};
+                }
             } else {
                 // Set process initial values
                 memcpy(&process->current_process_mask, mask, sizeof(cpu_set_t));
@@ -1384,7 +1388,8 @@ static void update_process_loads(void) {
 
 
 // Steal every CPU in mask from other processes
-static int steal_mask(pinfo_t* new_owner, const cpu_set_t *mask, bool sync, bool dry_run) {
+static int steal_mask(pinfo_t* new_owner, const cpu_set_t *mask, const cpu_set_t *acquired_mask,
+        bool sync, bool dry_run) {
     // Return if empty mask
     if (CPU_COUNT(mask) == 0) return DLB_SUCCESS;
 
@@ -1392,6 +1397,10 @@ static int steal_mask(pinfo_t* new_owner, const cpu_set_t *mask, bool sync, bool
     cpu_set_t cpus_left_to_steal;
     memcpy(&cpus_left_to_steal, mask, sizeof(cpu_set_t));
 
+    // Victims of this operation, in case it needs to be rolled back
+    typedef struct { pid_t pid; cpu_set_t cpus; } victim_info_t;
+    victim_info_t *victims = calloc(max_processes, sizeof(victim_info_t));
+
     // Iterate per process, steal in batch
     int p;
     for (p = 0; p < max_processes; ++p) {
@@ -1408,6 +1417,8 @@ static int steal_mask(pinfo_t* new_owner, const cpu_set_t *mask, bool sync, bool
                         mu_substract(&victim->future_process_mask,
                                 &victim->current_process_mask, &target_cpus);
                         CPU_OR(&victim->stolen_cpus, &victim->stolen_cpus, &target_cpus);
+                        victims[p] = (const victim_info_t) {
+                            .pid = victim->pid, .cpus = target_cpus };
                         verbose(VB_DROM, "CPUs %s have been removed from process %d",
                                 mu_to_str(mask), victim->pid);
                     }
@@ -1430,6 +1441,8 @@ static int steal_mask(pinfo_t* new_owner, const cpu_set_t *mask, bool sync, bool
 
     if (!error && sync && !dry_run) {
         // Relase lock and poll until victims update their masks or timeout
+        pid_t new_owner_pid = new_owner->pid;
+        cpu_set_t new_owner_mask = new_owner->current_process_mask;
         shmem_unlock(shm_handler);
 
         bool done = false;
@@ -1471,6 +1484,17 @@ static int steal_mask(pinfo_t* new_owner, const cpu_set_t *mask, bool sync, bool
         } while (!done && error == DLB_SUCCESS);
 
         shmem_lock(shm_handler);
+
+        // The lock was released, check that the new owner can still be modified
+        if (!error && new_owner->pid != new_owner_pid) {
+            error = DLB_ERR_NOPROC;
+        } else if (!error
+                && (new_owner->dirty
+                    || !CPU_EQUAL(&new_owner->current_process_mask, &new_owner_mask))) {
+            error = DLB_ERR_PDIRTY;
+        } else if (!error && !mu_is_subset(acquired_mask, &shdata->free_mask)) {
+            error = DLB_ERR_PERM;
+        }
     }
 
     if (!error && !dry_run) {
@@ -1484,22 +1508,25 @@ static int steal_mask(pinfo_t* new_owner, const cpu_set_t *mask, bool sync, bool
         // Some CPUs could not be stolen, roll everything back
         for (p = 0; p < max_processes; ++p) {
             pinfo_t *victim = &shdata->process_info[p];
-            if (victim != new_owner && victim->pid != NOBODY) {
-                cpu_set_t cpus_to_return;
-                CPU_AND(&cpus_to_return, &victim->stolen_cpus, mask);
-                if (CPU_COUNT(&cpus_to_return) > 0) {
-                    // warning: we may return some CPU to a wrong process
-                    // if more than one contains that CPU as stolen
+            cpu_set_t *cpus_to_return = &victims[p].cpus;
+            if (victims[p].pid != NOBODY) {
+                if (victim->pid == victims[p].pid
+                        && mu_is_subset(cpus_to_return, &victim->stolen_cpus)) {
                     CPU_OR(&victim->future_process_mask, &victim->future_process_mask,
-                            &cpus_to_return);
-                    mu_substract(&victim->stolen_cpus, &victim->stolen_cpus, &cpus_to_return);
+                            cpus_to_return);
+                    mu_substract(&victim->stolen_cpus, &victim->stolen_cpus, cpus_to_return);
                     victim->dirty = !CPU_EQUAL(
                             &victim->current_process_mask, &victim->future_process_mask);
+                } else {
+                    // The victim has finalized in the meantime
+                    CPU_OR(&shdata->free_mask, &shdata->free_mask, cpus_to_return);
                 }
             }
         }
     }
 
+    free(victims);
+
     return error;
 }
 
@@ -1542,8 +1569,10 @@ static int set_new_mask(pinfo_t *process, const cpu_set_t *mask, bool sync,
     }
 
     /* Run first a dry run to check if CPUs can be stolen */
-    int error = steal_mask(process, &cpus_to_steal, sync, /* dry_run */ true);
-    error = error ? error : steal_mask(process, &cpus_to_steal, sync, /* dry_run */ false);
+    int error = steal_mask(process, &cpus_to_steal, &cpus_to_acquire, sync,
+            /* dry_run */ true);
+    error = error ? error : steal_mask(process, &cpus_to_steal, &cpus_to_acquire, sync,
+            /* dry_run */ false);
     error = error ? error : register_mask(process, &cpus_to_acquire);
     error = error ? error : unregister_mask(process, &cpus_to_free, return_stolen);
     if (error == DLB_SUCCESS && free_cpu_mask != NULL) {
-- 
2.43.0


From 3ee570bea875839bfc055754da8bc2ce7fffe4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:33 +0000
Subject: [PATCH 21/75] fix: release the CPUs of a pre-initialized process in
 its last DLB_Finalize

---
 src/apis/DLB_interface.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/apis/DLB_interface.c b/src/apis/DLB_interface.c
index f91c122..da6005d 100644
--- a/src/apis/DLB_interface.c
+++ b/src/apis/DLB_interface.c
@@ -26,6 +26,7 @@
 #include "LB_core/node_barrier.h"
 #include "LB_core/spd.h"
 #include "LB_core/DLB_kernel.h"
+#include "LB_comm/shmem_cpuinfo.h"
 #include "LB_comm/shmem_procinfo.h"
 #include "support/env.h"
 #include "support/error.h"
@@ -61,8 +62,12 @@ int DLB_Finalize(void) {
     } else if (__sync_bool_compare_and_swap(&thread_spd->dlb_preinitialized, true, false) ) {
         /* This is to support the case when a single process does DLB_PreInit + DLB_Init
          * The first DLB_Finalize must finalize everything except the CPUs not inherited
-         * during DLB_Init, if any. The second finalize must clean up the procinfo shmem.
+         * during DLB_Init, if any. The second finalize must clean up the procinfo shmem
+         * and the ownership of those CPUs.
          */
+        shmem_cpuinfo__finalize(thread_spd->id,
+                thread_spd->options.shm_key,
+                thread_spd->options.lewi_color);
         shmem_procinfo__finalize(thread_spd->id,
                 thread_spd->options.debug_opts & DBG_RETURNSTOLEN,
                 thread_spd->options.shm_key);
-- 
2.43.0


From 17f694253334870e77463d11fd8633dc0fe49015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:30 +0000
Subject: [PATCH 22/75] fix: initialize the procinfo shared memory in PreInit
 if it was reset by a cleanup

---
 src/LB_comm/shmem_procinfo.c | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/LB_comm/shmem_procinfo.c b/src/LB_comm/shmem_procinfo.c
index e470fd3..d830264 100644
--- a/src/LB_comm/shmem_procinfo.c
+++ b/src/LB_comm/shmem_procinfo.c
@@ -457,21 +457,26 @@ int shmem_procinfo__init_with_cpu_sharing(pid_t pid, pid_t preinit_pid,
     return shmem_procinfo__init_(pid, preinit_pid, process_mask, NULL, shmem_key, true);
 }
 
+/* Initialize some values if this is the 1st process attached to the shmem, or if
+ * the shmem was reset during the cleanup of a dead process */
+static void init_shdata_ext(void) {
+    if (!shdata->flags.initialized) {
+        get_time(&shdata->initial_time);
+        mu_get_system_mask(&shdata->free_mask);
+        shdata->flags = (const procinfo_flags_t) {
+            .initialized = true,
+            .cpu_sharing_unknown = true,
+        };
+    }
+}
+
 int shmem_procinfo_ext__init(const char *shmem_key) {
     // Shared memory creation
     open_shmem(shmem_key);
 
     shmem_lock(shm_handler);
     {
-        // Initialize some values if this is the 1st process attached to the shmem
-        if (!shdata->flags.initialized) {
-            get_time(&shdata->initial_time);
-            mu_get_system_mask(&shdata->free_mask);
-            shdata->flags = (const procinfo_flags_t) {
-                .initialized = true,
-                .cpu_sharing_unknown = true,
-            };
-        }
+        init_shdata_ext();
     }
     shmem_unlock(shm_handler);
 
@@ -488,6 +493,8 @@ int shmem_procinfo_ext__preinit(pid_t pid, const cpu_set_t *mask, dlb_drom_flags
     pinfo_t *process = NULL;
     shmem_lock(shm_handler);
     {
+        init_shdata_ext();
+
         int p;
         for (p = 0; p < max_processes; p++) {
             if (shdata->process_info[p].pid == pid) {
-- 
2.43.0


From 1f1f24233335ba43270473e4a1b34b3bb37a00f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:18 +0000
Subject: [PATCH 23/75] fix: do not wait forever for a shared memory whose
 creator died

---
 src/LB_comm/shmem.c | 17 +++++++++++++++--
 src/LB_comm/shmem.h |  2 +-
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/LB_comm/shmem.c b/src/LB_comm/shmem.c
index 151ac07..dc7edbd 100644
--- a/src/LB_comm/shmem.c
+++ b/src/LB_comm/shmem.c
@@ -155,7 +155,21 @@ static bool shmem_open_and_lock(shmem_handler_t *handler, const shmem_props_t *s
     /* Set the address for the sync struct */
     handler->shsync = (shmem_sync_t*) handler->shm_addr;
 
-    if (__sync_bool_compare_and_swap(&handler->shsync->initializing, 0, 1)) {
+    int pid = getpid();
+    int creator = __sync_val_compare_and_swap(&handler->shsync->initializing, 0, pid);
+    while (creator != 0 && !handler->shsync->initialized) {
+        /* Shared Memory being created by another process, wait until it is initialized
+         * or start over if that process does not exist anymore */
+        if (kill(creator, 0) == -1 && errno == ESRCH && !handler->shsync->initialized) {
+            int dead_creator = creator;
+            creator = __sync_val_compare_and_swap(
+                    &handler->shsync->initializing, dead_creator, pid);
+            if (creator == dead_creator) creator = 0;
+        }
+        __sync_synchronize();
+    }
+
+    if (creator == 0) {
         /* Shared Memory creator */
         verbose(VB_SHMEM, "Initializing Shared Memory (%s)", shmem_module);
 
@@ -181,7 +195,6 @@ static bool shmem_open_and_lock(shmem_handler_t *handler, const shmem_props_t *s
         handler->shsync->initialized = 1;
     } else {
         /* Shared Memory already created */
-        while(!handler->shsync->initialized) __sync_synchronize();
         verbose(VB_SHMEM, "Attached to Shared Memory (%s)", shmem_module);
     }
 
diff --git a/src/LB_comm/shmem.h b/src/LB_comm/shmem.h
index f375422..745479b 100644
--- a/src/LB_comm/shmem.h
+++ b/src/LB_comm/shmem.h
@@ -35,7 +35,7 @@ typedef enum ShmemState {
 typedef struct {
     unsigned int        shsync_version; // Shared Memory Sync version, set by the first process
     unsigned int        shmem_version;  // Shared Memory version, set by the first process
-    int                 initializing;   // Only the first process sets 0 -> 1
+    int                 initializing;   // PID of the process that initializes the shmem, or 0
     int                 initialized;    // Only the first process sets 0 -> 1
     shmem_state_t       state;          // Shared memory state
     pthread_mutex_t     shmem_mutex;    // Mutex to grant exclusive access to the shmem
-- 
2.43.0


From 396e1b04019b1fae0cfb6ca1090f71d7fe7c7295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:16 +0000
Subject: [PATCH 24/75] fix: return the number of participants when attaching
 to the default barrier

---
 src/LB_comm/shmem_barrier.c | 10 ++++++++++
 src/LB_comm/shmem_barrier.h |  2 ++
 src/LB_core/node_barrier.c  |  7 ++++---
 3 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/LB_comm/shmem_barrier.c b/src/LB_comm/shmem_barrier.c
index ad1ca41..5c19770 100644
--- a/src/LB_comm/shmem_barrier.c
+++ b/src/LB_comm/shmem_barrier.c
@@ -171,6 +171,12 @@ barrier_t* shmem_barrier__find(const char *barrier_name) {
  *   lewi: whether this barrier does lewi
  */
 barrier_t* shmem_barrier__register(const char *barrier_name, bool lewi) {
+    return shmem_barrier__register_and_count(barrier_name, lewi, NULL);
+}
+
+/* Same as above, also obtaining the updated number of participants */
+barrier_t* shmem_barrier__register_and_count(const char *barrier_name, bool lewi,
+        int *num_participants) {
     if (shm_handler == NULL) return NULL;
     if (barrier_name == NULL) return NULL;
 
@@ -268,6 +274,10 @@ barrier_t* shmem_barrier__register(const char *barrier_name, bool lewi) {
         /* Attach if needed and print number of participants */
         verbose(VB_BARRIER, "Attached to barrier %s. Participants: %d",
                 barrier->name, participants);
+
+        if (num_participants != NULL) {
+            *num_participants = participants;
+        }
     }
 
     return barrier;
diff --git a/src/LB_comm/shmem_barrier.h b/src/LB_comm/shmem_barrier.h
index 476190c..69246e6 100644
--- a/src/LB_comm/shmem_barrier.h
+++ b/src/LB_comm/shmem_barrier.h
@@ -33,6 +33,8 @@ int  shmem_barrier__get_system_id(void);
 int  shmem_barrier__get_max_barriers(void);
 barrier_t* shmem_barrier__find(const char *barrier_name);
 barrier_t* shmem_barrier__register(const char *barrier_name, bool lewi);
+barrier_t* shmem_barrier__register_and_count(const char *barrier_name, bool lewi,
+        int *num_participants);
 int  shmem_barrier__attach(barrier_t *barrier);
 int  shmem_barrier__detach(barrier_t *barrier);
 void shmem_barrier__barrier(barrier_t *barrier);
diff --git a/src/LB_core/node_barrier.c b/src/LB_core/node_barrier.c
index df967df..061fe8b 100644
--- a/src/LB_core/node_barrier.c
+++ b/src/LB_core/node_barrier.c
@@ -279,11 +279,12 @@ int node_barrier_attach(subprocess_descriptor_t *spd, barrier_t *barrier) {
                 bool lewi_barrier = parse_lewi_barrier(default_barrier_name,
                         spd->options.lewi_barrier,
                         spd->options.lewi_barrier_select, 0);
-                barrier_info->default_barrier = shmem_barrier__register(
+                int participants = 0;
+                barrier_info->default_barrier = shmem_barrier__register_and_count(
                         barrier_info->default_barrier_name,
-                        lewi_barrier);
+                        lewi_barrier, &participants);
                 // return number of participants
-                error = barrier_info->default_barrier ? 1 : DLB_ERR_NOMEM;
+                error = barrier_info->default_barrier ? participants : DLB_ERR_NOMEM;
             } else {
                 /* Default barrier already attached */
                 error = DLB_ERR_PERM;
-- 
2.43.0


From cd0ebf987c586702c2a4fcb8d542518acc8c077a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:41 +0000
Subject: [PATCH 25/75] fix: do not hold the shared memory lock while waiting
 for a busy barrier

---
 src/LB_comm/shmem_barrier.c | 91 ++++++++++++++++++++++++-------------
 1 file changed, 59 insertions(+), 32 deletions(-)

diff --git a/src/LB_comm/shmem_barrier.c b/src/LB_comm/shmem_barrier.c
index 5c19770..71b2575 100644
--- a/src/LB_comm/shmem_barrier.c
+++ b/src/LB_comm/shmem_barrier.c
@@ -37,6 +37,7 @@
 #include <stdio.h>
 #include <string.h>
 #include <stdlib.h>
+#include <unistd.h>
 
 typedef struct barrier_flags {
     bool initialized:1;
@@ -59,6 +60,7 @@ typedef struct {
 
 enum { SHMEM_BARRIER_VERSION = 6 };
 enum { SHMEM_TIMEOUT_SECONDS = 1 };
+enum { SHMEM_BARRIER_POLL_USECS = 100 };
 
 static int max_barriers;
 static shmem_handler_t *shm_handler = NULL;
@@ -166,6 +168,17 @@ barrier_t* shmem_barrier__find(const char *barrier_name) {
     return barrier;
 }
 
+/* Wait a bit for the other processes to leave the barrier, up to a limit */
+static void wait_busy_barrier(const struct timespec *start, const char *action) {
+    struct timespec now;
+    get_time(&now);
+    if (timespec_diff(start, &now) > SHMEM_TIMEOUT_SECONDS * INT64_C(1000000000)) {
+        fatal("Timed out while %s.\n"
+                "Please, report at " PACKAGE_BUGREPORT, action);
+    }
+    usleep(SHMEM_BARRIER_POLL_USECS);
+}
+
 /* Register and attach process to barrier.
  *   barrier_name: barrier name
  *   lewi: whether this barrier does lewi
@@ -186,9 +199,15 @@ barrier_t* shmem_barrier__register_and_count(const char *barrier_name, bool lewi
      * created, new processes may attach after acquiring both the shmem and the
      * barrier specific lock. */
     int participants = -1;
-    barrier_t *barrier = NULL;
-    shmem_lock(shm_handler);
-    {
+    barrier_t *barrier;
+    bool busy;
+    struct timespec start;
+    get_time(&start);
+    do {
+        barrier = NULL;
+        busy = false;
+        shmem_lock(shm_handler);
+
         /* Find a new spot, or an already registered barrier */
         barrier_t *empty_spot = NULL;
         int i;
@@ -238,12 +257,10 @@ barrier_t* shmem_barrier__register_and_count(const char *barrier_name, bool lewi
 
         } else if (barrier != NULL){
             /* Barrier was created by another participant, attach.
-             * (timedlock is used to avoid potential deadlocks) */
-            struct timespec timeout;
-            get_time_real(&timeout);
-            timeout.tv_sec += SHMEM_TIMEOUT_SECONDS;
-            int timedwrlock_error = pthread_rwlock_timedwrlock(&barrier->rwlock, &timeout);
-            if (likely(timedwrlock_error == 0)) {
+             * (trylock is used to avoid deadlocks, the shmem lock cannot be held
+             * while waiting for other processes to leave the barrier) */
+            int trywrlock_error = pthread_rwlock_trywrlock(&barrier->rwlock);
+            if (likely(trywrlock_error == 0)) {
                 /* Update participants */
                 participants = ++barrier->participants;
 
@@ -257,18 +274,21 @@ barrier_t* shmem_barrier__register_and_count(const char *barrier_name, bool lewi
 
                 pthread_rwlock_unlock(&barrier->rwlock);
 
-            } else if (timedwrlock_error == ETIMEDOUT || timedwrlock_error == EDEADLK) {
-                shmem_unlock(shm_handler);
-                fatal("Timed out while creating shmem_barrier.\n"
-                        "Please, report at " PACKAGE_BUGREPORT);
-            } else if (timedwrlock_error == EINVAL) {
+            } else if (trywrlock_error == EBUSY) {
+                busy = true;
+            } else {
                 shmem_unlock(shm_handler);
-                fatal("Error acquiring timedwrlock while creating shmem_barrier.\n"
+                fatal("Error acquiring trywrlock while creating shmem_barrier.\n"
                         "Please, report at " PACKAGE_BUGREPORT);
             }
         }
-    }
-    shmem_unlock(shm_handler);
+
+        shmem_unlock(shm_handler);
+
+        if (busy) {
+            wait_busy_barrier(&start, "creating shmem_barrier");
+        }
+    } while (busy);
 
     if (barrier != NULL) {
         /* Attach if needed and print number of participants */
@@ -337,13 +357,17 @@ int shmem_barrier__detach(barrier_t *barrier) {
 #endif
     int participants = -1;
 
-    shmem_lock(shm_handler);
-    {
-        struct timespec timeout;
-        get_time_real(&timeout);
-        timeout.tv_sec += SHMEM_TIMEOUT_SECONDS;
-        int timedwrlock_error = pthread_rwlock_timedwrlock(&barrier->rwlock, &timeout);
-        if (likely(timedwrlock_error == 0)) {
+    bool busy;
+    struct timespec start;
+    get_time(&start);
+    do {
+        busy = false;
+        shmem_lock(shm_handler);
+
+        /* (trylock is used to avoid deadlocks, the shmem lock cannot be held while
+         * waiting for other processes to leave the barrier) */
+        int trywrlock_error = pthread_rwlock_trywrlock(&barrier->rwlock);
+        if (likely(trywrlock_error == 0)) {
 
             if (!barrier->flags.initialized
                     || barrier->participants == 0) {
@@ -377,17 +401,20 @@ int shmem_barrier__detach(barrier_t *barrier) {
                 pthread_rwlock_destroy(&barrier->rwlock);
                 *barrier = (const barrier_t){};
             }
-        } else if (timedwrlock_error == ETIMEDOUT || timedwrlock_error == EDEADLK) {
-            shmem_unlock(shm_handler);
-            fatal("Timed out while detaching barrier.\n"
-                    "Please, report at " PACKAGE_BUGREPORT);
-        } else if (timedwrlock_error == EINVAL) {
+        } else if (trywrlock_error == EBUSY) {
+            busy = true;
+        } else {
             shmem_unlock(shm_handler);
-            fatal("Error acquiring timedwrlock while detaching barrier.\n"
+            fatal("Error acquiring trywrlock while detaching barrier.\n"
                     "Please, report at " PACKAGE_BUGREPORT);
         }
-    }
-    shmem_unlock(shm_handler);
+
+        shmem_unlock(shm_handler);
+
+        if (busy) {
+            wait_busy_barrier(&start, "detaching barrier");
+        }
+    } while (busy);
 
     ensure(count == 0, "Barrier Shared memory inconsistency while attaching "
             "barrier (count = %d).\n" "Please, report at " PACKAGE_BUGREPORT,
-- 
2.43.0


From 8a34ee265d1acc236a850388dbd833b0e2919c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:23 +0000
Subject: [PATCH 26/75] fix: when undoing a steal, do not free CPUs already
 assigned to other process

---
 src/LB_comm/shmem_procinfo.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/LB_comm/shmem_procinfo.c b/src/LB_comm/shmem_procinfo.c
index d830264..2545077 100644
--- a/src/LB_comm/shmem_procinfo.c
+++ b/src/LB_comm/shmem_procinfo.c
@@ -1525,7 +1525,17 @@ static int steal_mask(pinfo_t* new_owner, const cpu_set_t *mask, const cpu_set_t
                     victim->dirty = !CPU_EQUAL(
                             &victim->current_process_mask, &victim->future_process_mask);
                 } else {
-                    // The victim has finalized in the meantime
+                    // The victim has finalized in the meantime, free the CPUs unless they
+                    // have been already assigned to some other process
+                    int i;
+                    for (i = 0; i < max_processes; ++i) {
+                        const pinfo_t *process = &shdata->process_info[i];
+                        if (process->pid != NOBODY) {
+                            mu_substract(cpus_to_return, cpus_to_return, process->dirty ?
+                                    &process->future_process_mask :
+                                    &process->current_process_mask);
+                        }
+                    }
                     CPU_OR(&shdata->free_mask, &shdata->free_mask, cpus_to_return);
                 }
             }
-- 
2.43.0


From c7c3c59d99f020a3c1e2d966aa29e84826acf18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:25 +0000
Subject: [PATCH 27/75] fix: do not use the node barrier after DLB_Finalize

---
 src/LB_core/node_barrier.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/LB_core/node_barrier.c b/src/LB_core/node_barrier.c
index 061fe8b..5adaa0b 100644
--- a/src/LB_core/node_barrier.c
+++ b/src/LB_core/node_barrier.c
@@ -165,7 +165,7 @@ barrier_t* node_barrier_register(subprocess_descriptor_t *spd,
     if (barrier_name == NULL) return NULL;
 
     barrier_t *barrier = NULL;
-    if (spd->options.barrier) {
+    if (spd->barrier_info != NULL) {
         /* The register function cannot know whether the calling process is a new
         * participant or just a query for the pointer. If we have at least one
         * registered named barrier, we need to check the shared memory first. */
@@ -219,7 +219,7 @@ barrier_t* node_barrier_register(subprocess_descriptor_t *spd,
 
 int node_barrier(const subprocess_descriptor_t *spd, barrier_t *barrier) {
     int error;
-    if (spd->options.barrier) {
+    if (spd->barrier_info != NULL) {
         /* Check whether barrier is valid */
         barrier_info_t *barrier_info = spd->barrier_info;
         if (barrier == NULL) {
@@ -271,7 +271,7 @@ int node_barrier(const subprocess_descriptor_t *spd, barrier_t *barrier) {
 
 int node_barrier_attach(subprocess_descriptor_t *spd, barrier_t *barrier) {
     int error;
-    if (spd->options.barrier) {
+    if (spd->barrier_info != NULL) {
         barrier_info_t *barrier_info = spd->barrier_info;
         if (barrier == NULL) {
             if (barrier_info->default_barrier == NULL) {
@@ -330,7 +330,7 @@ int node_barrier_attach(subprocess_descriptor_t *spd, barrier_t *barrier) {
 
 int node_barrier_detach(subprocess_descriptor_t *spd, barrier_t *barrier) {
     int error;
-    if (spd->options.barrier) {
+    if (spd->barrier_info != NULL) {
         barrier_info_t *barrier_info = spd->barrier_info;
         if (barrier == NULL) {
             if (barrier_info->default_barrier != NULL) {
-- 
2.43.0


From 5edf78e60c015b48c1c1454166ab8223d0fb63ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:25 +0000
Subject: [PATCH 28/75] fix: detach from every shared memory even if one of
 them fails

---
 src/apis/DLB_interface_drom.c | 4 ++--
 src/apis/DLB_interface_talp.c | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/apis/DLB_interface_drom.c b/src/apis/DLB_interface_drom.c
index 52c4374..05202c3 100644
--- a/src/apis/DLB_interface_drom.c
+++ b/src/apis/DLB_interface_drom.c
@@ -51,8 +51,8 @@ int DLB_DROM_Attach(void) {
 
 int DLB_DROM_Detach(void) {
     int error = shmem_cpuinfo_ext__finalize();
-    error = error ? error : shmem_procinfo_ext__finalize();
-    return error;
+    int procinfo_error = shmem_procinfo_ext__finalize();
+    return error ? error : procinfo_error;
 }
 
 int DLB_DROM_GetNumCpus(int *ncpus) {
diff --git a/src/apis/DLB_interface_talp.c b/src/apis/DLB_interface_talp.c
index 2c89d59..d0c89f7 100644
--- a/src/apis/DLB_interface_talp.c
+++ b/src/apis/DLB_interface_talp.c
@@ -63,9 +63,9 @@ int DLB_TALP_Attach(void) {
 
 int DLB_TALP_Detach(void) {
     int error = shmem_cpuinfo_ext__finalize();
-    error = error ? error : shmem_procinfo_ext__finalize();
-    error = error ? error : shmem_talp_ext__finalize();
-    return error;
+    int procinfo_error = shmem_procinfo_ext__finalize();
+    int talp_error = shmem_talp_ext__finalize();
+    return error ? error : procinfo_error ? procinfo_error : talp_error;
 }
 
 int DLB_TALP_GetNumCPUs(int *ncpus) {
-- 
2.43.0


From e2402d6a7899fb1bff28653dc76ce734edc3028c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:25 +0000
Subject: [PATCH 29/75] fix: do not close on DLB_Finalize a cpuinfo shared
 memory that DLB_Init did not open

---
 src/LB_core/DLB_kernel.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/LB_core/DLB_kernel.c b/src/LB_core/DLB_kernel.c
index a03c719..3a452c4 100644
--- a/src/LB_core/DLB_kernel.c
+++ b/src/LB_core/DLB_kernel.c
@@ -240,7 +240,13 @@ int Finish(subprocess_descriptor_t *spd) {
             || spd->options.talp
             || spd->options.ompt
             || spd->options.preinit_pid) {
-        shmem_cpuinfo__finalize(spd->id, spd->options.shm_key, spd->options.lewi_color);
+        /* cpuinfo is not initialized if only procinfo is needed, do not close the
+         * shared memory if it was opened by other means (e.g., DLB_TALP_Attach) */
+        if (spd->lb_policy == POLICY_LEWI_MASK
+                || spd->options.drom
+                || spd->options.preinit_pid) {
+            shmem_cpuinfo__finalize(spd->id, spd->options.shm_key, spd->options.lewi_color);
+        }
         shmem_procinfo__finalize(spd->id, spd->options.debug_opts & DBG_RETURNSTOLEN,
                 spd->options.shm_key);
     }
-- 
2.43.0


From 09421598efd6f6e81340316bc800467b8abce0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:25 +0000
Subject: [PATCH 30/75] fix: do not truncate the TALP shared memory in use by
 other processes

---
 src/LB_comm/shmem.c      | 20 +++++++++++++++-----
 src/LB_comm/shmem_talp.c | 31 ++++++++++++++++++++-----------
 src/LB_comm/shmem_talp.h |  3 +++
 src/LB_core/DLB_talp.c   |  5 ++---
 4 files changed, 40 insertions(+), 19 deletions(-)

diff --git a/src/LB_comm/shmem.c b/src/LB_comm/shmem.c
index dc7edbd..967aa72 100644
--- a/src/LB_comm/shmem.c
+++ b/src/LB_comm/shmem.c
@@ -141,9 +141,18 @@ static bool shmem_open_and_lock(shmem_handler_t *handler, const shmem_props_t *s
         fatal("shm_open error: %s", strerror(errno));
     }
 
-    /* Truncate the regular file to a precise size */
-    if (ftruncate(fd, handler->shm_size) == -1) {
-        fatal("ftruncate error: %s", strerror(errno));
+    /* Truncate the regular file to a precise size, unless it is already larger:
+     * other processes may be using all of it */
+    struct stat shm_stat;
+    if (fstat(fd, &shm_stat) == -1) {
+        fatal("fstat error: %s", strerror(errno));
+    }
+    if ((size_t)shm_stat.st_size < handler->shm_size) {
+        if (ftruncate(fd, handler->shm_size) == -1) {
+            fatal("ftruncate error: %s", strerror(errno));
+        }
+    } else {
+        handler->shm_size = shm_stat.st_size;
     }
 
     /* Map shared memory object */
@@ -215,7 +224,6 @@ static bool shmem_open_and_lock(shmem_handler_t *handler, const shmem_props_t *s
 
     /* Between shm_open and the lock, the last process attached may have already
      * removed the shared memory. It is always unlinked while holding the lock. */
-    struct stat shm_stat;
     if (fstat(fd, &shm_stat) == -1) {
         fatal("fstat error: %s", strerror(errno));
     }
@@ -254,7 +262,9 @@ shmem_handler_t* shmem_init(void **shdata, const shmem_props_t *shmem_props) {
     get_shmem_filename(handler->shm_filename, shmem_module, shmem_key, shmem_color);
 
     /* Retry if another process is removing the shmem at the same time */
-    while(!shmem_open_and_lock(handler, shmem_props));
+    while(!shmem_open_and_lock(handler, shmem_props)) {
+        handler->shm_size = shsync_size + shdata_size;
+    }
 
     *shdata = handler->shm_addr + shsync_size;
 
diff --git a/src/LB_comm/shmem_talp.c b/src/LB_comm/shmem_talp.c
index 0745601..cc1772d 100644
--- a/src/LB_comm/shmem_talp.c
+++ b/src/LB_comm/shmem_talp.c
@@ -82,7 +82,7 @@ static void cleanup_shmem(void *shdata_ptr, int pid) {
 
     /* If there are no registered regions, make sure shmem is reset */
     if (shmem_empty) {
-        memset(shared_data, 0, shmem_talp__size());
+        memset(shared_data, 0, sizeof(shdata_t) + sizeof(talp_region_t) * num_regions);
     }
 }
 
@@ -135,17 +135,23 @@ int shmem_talp__init(const char *shmem_key, int shmem_size_multiplier) {
     // Shared memory creation
     open_shmem(shmem_key, shmem_size_multiplier);
 
+    // This process may have already opened the shared memory with another capacity
+    int capacity = mu_get_system_size() * shmem_size_multiplier;
+    int existing_max_regions;
+
     shmem_lock(shm_handler);
     {
         // Initialize some values if this is the 1st process attached to the shmem
-        if (!shdata->initialized) {
+        if (!shdata->initialized && capacity <= max_regions) {
             shdata->initialized = true;
             shdata->num_regions = 0;
-            shdata->max_regions = max_regions;
+            shdata->max_regions = capacity;
+        }
+        existing_max_regions = shdata->max_regions;
+        if (!shdata->initialized || existing_max_regions != capacity) {
+            error = DLB_ERR_INIT;
         } else {
-            if (shdata->max_regions != max_regions) {
-                error = DLB_ERR_INIT;
-            }
+            max_regions = capacity;
         }
     }
     shmem_unlock(shm_handler);
@@ -154,7 +160,7 @@ int shmem_talp__init(const char *shmem_key, int shmem_size_multiplier) {
         warning("Cannot attach to TALP shmem because existing size differ."
                 " Existing shmem size: %d, expected: %d."
                 " Check for DLB_ARGS consistency among processes or clean up shared memory.",
-                shdata->max_regions, max_regions);
+                existing_max_regions, capacity);
     }
 
     if (error < DLB_SUCCESS) {
@@ -167,8 +173,9 @@ int shmem_talp__init(const char *shmem_key, int shmem_size_multiplier) {
 }
 
 int shmem_talp_ext__init(const char *shmem_key, int shmem_size_multiplier) {
-    // Shared memory creation
-    open_shmem(shmem_key, shmem_size_multiplier);
+    // Shared memory creation. The capacity is set by the processes being monitored,
+    // assume here the maximum that they may need.
+    open_shmem(shmem_key, shmem_size_multiplier * SHMEM_TALP_REGIONS_PER_PROC);
 
     // External processes don't need to initialize anything
 
@@ -422,10 +429,12 @@ void shmem_talp__print_info(const char *shmem_key, int shmem_size_multiplier) {
     }
 
     /* Make a full copy of the shared memory */
-    shdata_t *shdata_copy = malloc(shmem_talp__size());
+    shdata_t *shdata_copy;
     shmem_lock(shm_handler);
     {
-        memcpy(shdata_copy, shdata, shmem_talp__size());
+        size_t size = sizeof(shdata_t) + sizeof(talp_region_t) * shdata->num_regions;
+        shdata_copy = malloc(size);
+        memcpy(shdata_copy, shdata, size);
     }
     shmem_unlock(shm_handler);
 
diff --git a/src/LB_comm/shmem_talp.h b/src/LB_comm/shmem_talp.h
index 2aa78c1..d2078b4 100644
--- a/src/LB_comm/shmem_talp.h
+++ b/src/LB_comm/shmem_talp.h
@@ -32,6 +32,9 @@ typedef struct talp_region_list_t {
     float avg_cpus;
 } talp_region_list_t;
 
+/* Max. number of regions per process when all of them are shared */
+enum { SHMEM_TALP_REGIONS_PER_PROC = 100 };
+
 /* Init */
 int shmem_talp__init(const char *shmem_key, int shmem_size_multiplier);
 int shmem_talp_ext__init(const char *shmem_key, int shmem_size_multiplier);
diff --git a/src/LB_core/DLB_talp.c b/src/LB_core/DLB_talp.c
index 63905c1..bb8045a 100644
--- a/src/LB_core/DLB_talp.c
+++ b/src/LB_core/DLB_talp.c
@@ -613,11 +613,10 @@ void talp_init(subprocess_descriptor_t *spd) {
     if (talp_info->flags.have_shmem || talp_info->flags.have_minimal_shmem) {
         /* If we only need a minimal shmem, its size will be the user-provided
          * multiplier times 'system_size' (usually, 1 region per process)
-         * Otherwise, we multiply it by DEFAULT_REGIONS_PER_PROC.
+         * Otherwise, we multiply it by SHMEM_TALP_REGIONS_PER_PROC.
          */
-        enum { DEFAULT_REGIONS_PER_PROC = 100 };
         int shmem_size_multiplier = spd->options.shm_size_multiplier
-            * (talp_info->flags.have_shmem ? DEFAULT_REGIONS_PER_PROC : 1);
+            * (talp_info->flags.have_shmem ? SHMEM_TALP_REGIONS_PER_PROC : 1);
         shmem_talp__init(spd->options.shm_key, shmem_size_multiplier);
     }
 
-- 
2.43.0


From bca2d71b4b29733f9e26bcefefcbd4f6b016e97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:55 +0000
Subject: [PATCH 31/75] fix: free the TALP thread samples on finalize and do
 not reuse them

---
 src/LB_core/DLB_talp.c | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/LB_core/DLB_talp.c b/src/LB_core/DLB_talp.c
index bb8045a..628b55f 100644
--- a/src/LB_core/DLB_talp.c
+++ b/src/LB_core/DLB_talp.c
@@ -586,6 +586,9 @@ static inline void reset_papi_counters(void) {
 #endif
 }
 
+/* Number of initialized, and not yet finalized, TALP instances in the process */
+static atomic_int num_talp_instances = 0;
+
 void talp_init(subprocess_descriptor_t *spd) {
     ensure(!spd->talp_info, "TALP already initialized");
     ensure(!thread_is_observer, "An observer thread cannot call talp_init");
@@ -608,6 +611,7 @@ void talp_init(subprocess_descriptor_t *spd) {
         .samples_mutex = PTHREAD_MUTEX_INITIALIZER,
     };
     spd->talp_info = talp_info;
+    DLB_ATOMIC_ADD(&num_talp_instances, 1);
 
     /* Initialize shared memory */
     if (talp_info->flags.have_shmem || talp_info->flags.have_minimal_shmem) {
@@ -711,6 +715,10 @@ void talp_finalize(subprocess_descriptor_t *spd) {
 /*********************************************************************************/
 
 static __thread talp_sample_t* _tls_sample = NULL;
+/* A thread sample is only valid if it was allocated in the current epoch. The epoch changes
+ * when TALP is finalized, since only the thread that finalizes can nullify its pointer. */
+static __thread unsigned int _tls_sample_epoch = 0;
+static atomic_uint talp_epoch = 0;
 
 /* WARNING: this function may only be called when updating own thread's sample */
 static inline void set_sample_state(talp_sample_t *sample, enum talp_sample_state state,
@@ -732,12 +740,15 @@ static inline void set_sample_state(talp_sample_t *sample, enum talp_sample_stat
 /* Get the TLS associated sample */
 static talp_sample_t* talp_get_thread_sample(const subprocess_descriptor_t *spd) {
     /* Thread already has an allocated sample, return it */
-    if (likely(_tls_sample != NULL)) return _tls_sample;
+    unsigned int epoch = DLB_ATOMIC_LD_RLX(&talp_epoch);
+    if (likely(_tls_sample != NULL && _tls_sample_epoch == epoch)) return _tls_sample;
 
     /* Observer threads don't have a valid sample */
     if (unlikely(thread_is_observer)) return NULL;
 
     /* Otherwise, allocate */
+    _tls_sample = NULL;
+    _tls_sample_epoch = epoch;
     talp_info_t *talp_info = spd->talp_info;
     pthread_mutex_lock(&talp_info->samples_mutex);
     {
@@ -790,8 +801,16 @@ static void talp_dealloc_samples(const subprocess_descriptor_t *spd) {
     talp_info_t *talp_info = spd->talp_info;
     pthread_mutex_lock(&talp_info->samples_mutex);
     {
+        /* Samples may be shared if there are other subprocesses with TALP */
+        if (DLB_ATOMIC_SUB_FETCH(&num_talp_instances, 1) == 0) {
+            DLB_ATOMIC_ADD(&talp_epoch, 1);
+            for (int i = 0; i < talp_info->ncpus; ++i) {
+                free(talp_info->samples[i]);
+            }
+        }
         free(talp_info->samples);
         talp_info->samples = NULL;
+        talp_info->ncpus = 0;
     }
     pthread_mutex_unlock(&talp_info->samples_mutex);
 }
@@ -828,7 +847,7 @@ static void talp_update_sample(talp_sample_t *sample, bool papi, int64_t timesta
 #ifdef PAPI_LIB
     if (papi) {
         /* Only read counters if we are updating this thread's sample */
-        if (sample == talp_get_thread_sample(thread_spd)) {
+        if (sample == _tls_sample) {
             if (sample->state == useful) {
                 /* Read */
                 long long papi_values[2];
-- 
2.43.0


From 66d25db265221c7ea9ab2798fd0d2a748febbdef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:55 +0000
Subject: [PATCH 32/75] fix: do not keep the respect-cpuset and post-mortem
 options of a previous initialization

---
 src/LB_comm/shmem_cpuinfo.c | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/LB_comm/shmem_cpuinfo.c b/src/LB_comm/shmem_cpuinfo.c
index 8b330ab..12394bf 100644
--- a/src/LB_comm/shmem_cpuinfo.c
+++ b/src/LB_comm/shmem_cpuinfo.c
@@ -457,15 +457,12 @@ int shmem_cpuinfo__init(pid_t pid, pid_t preinit_pid, const cpu_set_t *process_m
         const char *shmem_key, int shmem_color) {
     int error = DLB_SUCCESS;
 
-    // Update post_mortem preference
-    if (thread_spd && thread_spd->options.debug_opts & DBG_LPOSTMORTEM) {
-        cpu_is_public_post_mortem = true;
-    }
-
-    // Respect cpuset
-    if (thread_spd && !thread_spd->options.lewi_respect_cpuset) {
-        respect_cpuset = false;
-        cpu_is_public_post_mortem = true;
+    // Update post_mortem and respect cpuset preferences, discarding those from
+    // a previous initialization
+    if (thread_spd) {
+        respect_cpuset = thread_spd->options.lewi_respect_cpuset;
+        cpu_is_public_post_mortem = !respect_cpuset
+            || thread_spd->options.debug_opts & DBG_LPOSTMORTEM;
     }
 
     // Shared memory creation
-- 
2.43.0


From b0a37cdd85b13a6588a82594d48adb39f72e24c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:42 +0000
Subject: [PATCH 33/75] fix: do not keep the max. parallelism of a previous
 classic LeWI initialization

---
 src/LB_policies/lewi.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/LB_policies/lewi.c b/src/LB_policies/lewi.c
index e19ea93..9c87c7f 100644
--- a/src/LB_policies/lewi.c
+++ b/src/LB_policies/lewi.c
@@ -47,6 +47,11 @@ int lewi_Init(subprocess_descriptor_t *spd) {
 
     default_cpus = spd->lewi_ncpus;
 
+    /* Discard values from a previous initialization */
+    myCPUS = 0;
+    single = 0;
+    max_parallelism = 0;
+
     setThreads_Lend_light(&spd->pm, default_cpus);
 
     info0("Default cpus per process: %d", default_cpus);
-- 
2.43.0


From 7617df96c7a0e0612905a40d01c0f263cc345f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:06 +0000
Subject: [PATCH 34/75] fix: do not send messages to a helper thread that is
 being deregistered, and check that it could be created

---
 src/LB_comm/shmem_async.c | 105 ++++++++++++++++++++++----------------
 1 file changed, 62 insertions(+), 43 deletions(-)

diff --git a/src/LB_comm/shmem_async.c b/src/LB_comm/shmem_async.c
index 467632c..1b3deb7 100644
--- a/src/LB_comm/shmem_async.c
+++ b/src/LB_comm/shmem_async.c
@@ -102,6 +102,7 @@ static helper_t* get_helper(pid_t pid) {
     return NULL;
 }
 
+/* The shared memory must be locked, the helper could be deregistered otherwise */
 static void enqueue_message(helper_t *helper, const message_t *message) {
     /* Discard message if helper does not accept new inputs */
     if (helper->joinable) {
@@ -133,6 +134,19 @@ static void enqueue_message(helper_t *helper, const message_t *message) {
     pthread_mutex_unlock(&helper->q_lock);
 }
 
+/* Send message to pid, if it has a helper thread */
+static void send_message(pid_t pid, const message_t *message) {
+    if (shm_handler == NULL) return;
+    shmem_lock(shm_handler);
+    {
+        helper_t *helper = get_helper(pid);
+        if (helper) {
+            enqueue_message(helper, message);
+        }
+    }
+    shmem_unlock(shm_handler);
+}
+
 static void dequeue_message(helper_t *helper, message_t *message) {
     pthread_mutex_lock(&helper->q_lock);
 
@@ -219,6 +233,18 @@ static void cleanup_shmem(void *shdata_ptr, int pid) {
     }
 }
 
+static void close_shmem(void) {
+    pthread_mutex_lock(&mutex);
+    {
+        if (--subprocesses_attached == 0) {
+            shmem_finalize(shm_handler, NULL /* do not check if empty */);
+            shm_handler = NULL;
+            shdata = NULL;
+        }
+    }
+    pthread_mutex_unlock(&mutex);
+}
+
 int shmem_async_init(pid_t pid, const pm_interface_t *pm, const cpu_set_t *process_mask,
         const char *shmem_key) {
     int error = DLB_ERR_UNKNOWN;
@@ -277,9 +303,13 @@ int shmem_async_init(pid_t pid, const pm_interface_t *pm, const cpu_set_t *proce
                 helper->pm = pm;
                 helper->pid = pid;
                 memcpy(&helper->mask, process_mask, sizeof(cpu_set_t));
-                pthread_create(&helper->pth, NULL, thread_start, (void*)helper);
-
-                error = DLB_SUCCESS;
+                if (pthread_create(&helper->pth, NULL, thread_start, (void*)helper) == 0) {
+                    error = DLB_SUCCESS;
+                } else {
+                    pthread_mutex_destroy(&helper->q_lock);
+                    pthread_cond_destroy(&helper->q_wait_data);
+                    memset(helper, 0, sizeof(*helper));
+                }
                 break;
             }
         }
@@ -291,17 +321,30 @@ int shmem_async_init(pid_t pid, const pm_interface_t *pm, const cpu_set_t *proce
         warn_error(DLB_ERR_NOMEM);
     }
 
+    if (error != DLB_SUCCESS) {
+        close_shmem();
+    }
+
     return error;
 }
 
 int shmem_async_finalize(pid_t pid) {
     verbose(VB_ASYNC, "Finalizing helper thread for pid: %d", pid);
-    helper_t *helper = get_helper(pid);
-    if (helper) {
-        /* Enqueue JOIN message  */
-        message_t message = { .action = ACTION_JOIN };
-        enqueue_message(helper, &message);
+    if (shm_handler == NULL) return DLB_ERR_NOPROC;
+
+    helper_t *helper;
+    shmem_lock(shm_handler);
+    {
+        helper = get_helper(pid);
+        if (helper) {
+            /* Enqueue JOIN message  */
+            message_t message = { .action = ACTION_JOIN };
+            enqueue_message(helper, &message);
+        }
+    }
+    shmem_unlock(shm_handler);
 
+    if (helper) {
         /* Wait helper thread to finish */
         pthread_join(helper->pth, NULL);
         verbose(VB_ASYNC, "Helper thread joined");
@@ -315,16 +358,7 @@ int shmem_async_finalize(pid_t pid) {
         }
         shmem_unlock(shm_handler);
 
-        /* Shared memory destruction */
-        pthread_mutex_lock(&mutex);
-        {
-            if (--subprocesses_attached == 0) {
-                shmem_finalize(shm_handler, NULL /* do not check if empty */);
-                shm_handler = NULL;
-                shdata = NULL;
-            }
-        }
-        pthread_mutex_unlock(&mutex);
+        close_shmem();
     }
 
     return helper ? DLB_SUCCESS : DLB_ERR_NOPROC;
@@ -333,49 +367,34 @@ int shmem_async_finalize(pid_t pid) {
 
 void shmem_async_enable_cpu(pid_t pid, int cpuid) {
     verbose(VB_ASYNC, "Enqueuing petition for pid: %d, enable cpuid %d", pid, cpuid);
-    helper_t *helper = get_helper(pid);
-    if (helper) {
-        message_t message = { .action = ACTION_ENABLE_CPU, .cpuid = cpuid };
-        enqueue_message(helper, &message);
-    }
+    message_t message = { .action = ACTION_ENABLE_CPU, .cpuid = cpuid };
+    send_message(pid, &message);
 }
 
 void shmem_async_enable_cpu_set(pid_t pid, const cpu_set_t *cpu_set) {
     verbose(VB_ASYNC, "Enqueuing petition for pid: %d, enable cpu set %s",
             pid, mu_to_str(cpu_set));
-    helper_t *helper = get_helper(pid);
-    if (helper) {
-        message_t message = { .action = ACTION_ENABLE_CPU_SET, .cpu_set = *cpu_set };
-        enqueue_message(helper, &message);
-    }
+    message_t message = { .action = ACTION_ENABLE_CPU_SET, .cpu_set = *cpu_set };
+    send_message(pid, &message);
 }
 
 void shmem_async_disable_cpu(pid_t pid, int cpuid) {
     verbose(VB_ASYNC, "Enqueuing petition for pid: %d, disable cpuid %d", pid, cpuid);
-    helper_t *helper = get_helper(pid);
-    if (helper) {
-        message_t message = { .action = ACTION_DISABLE_CPU, .cpuid = cpuid };
-        enqueue_message(helper, &message);
-    }
+    message_t message = { .action = ACTION_DISABLE_CPU, .cpuid = cpuid };
+    send_message(pid, &message);
 }
 
 void shmem_async_disable_cpu_set(pid_t pid, const cpu_set_t *cpu_set) {
     verbose(VB_ASYNC, "Enqueuing petition for pid: %d, disable cpu set %s",
             pid, mu_to_str(cpu_set));
-    helper_t *helper = get_helper(pid);
-    if (helper) {
-        message_t message = { .action = ACTION_DISABLE_CPU_SET, .cpu_set = *cpu_set };
-        enqueue_message(helper, &message);
-    }
+    message_t message = { .action = ACTION_DISABLE_CPU_SET, .cpu_set = *cpu_set };
+    send_message(pid, &message);
 }
 
 void shmem_async_set_num_cpus(pid_t pid, int ncpus) {
     verbose(VB_ASYNC, "Enqueuing petition for pid: %d, set num CPUs %d", pid, ncpus);
-    helper_t *helper = get_helper(pid);
-    if (helper) {
-        message_t message = { .action = ACTION_SET_NUM_CPUS, .ncpus = ncpus };
-        enqueue_message(helper, &message);
-    }
+    message_t message = { .action = ACTION_SET_NUM_CPUS, .ncpus = ncpus };
+    send_message(pid, &message);
 }
 
 int shmem_async__version(void) {
-- 
2.43.0


From 7b3d4b3f290c2ffce09d6220b5b1640352d8fa5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:06 +0000
Subject: [PATCH 35/75] fix: undo the initialization if the helper thread or
 the policy cannot be initialized

---
 src/LB_core/DLB_kernel.c | 59 ++++++++++++++++++++++++----------------
 1 file changed, 35 insertions(+), 24 deletions(-)

diff --git a/src/LB_core/DLB_kernel.c b/src/LB_core/DLB_kernel.c
index 3a452c4..3b06400 100644
--- a/src/LB_core/DLB_kernel.c
+++ b/src/LB_core/DLB_kernel.c
@@ -56,6 +56,32 @@ __thread bool thread_is_observer = false;
 
 /* Status */
 
+/* Finalize the shared memories that are common to all policies */
+static void finalize_shmems(subprocess_descriptor_t *spd) {
+    if (spd->options.barrier) {
+        node_barrier_finalize(spd);
+        shmem_barrier__finalize(spd->options.shm_key);
+    }
+    if (spd->lb_policy == POLICY_LEWI_MASK
+            || spd->options.drom
+            || spd->options.talp
+            || spd->options.ompt
+            || spd->options.preinit_pid) {
+        /* cpuinfo is not initialized if only procinfo is needed, do not close the
+         * shared memory if it was opened by other means (e.g., DLB_TALP_Attach) */
+        if (spd->lb_policy == POLICY_LEWI_MASK
+                || spd->options.drom
+                || spd->options.preinit_pid) {
+            shmem_cpuinfo__finalize(spd->id, spd->options.shm_key, spd->options.lewi_color);
+        }
+        shmem_procinfo__finalize(spd->id, spd->options.debug_opts & DBG_RETURNSTOLEN,
+                spd->options.shm_key);
+    }
+    if (spd->options.mode == MODE_ASYNC) {
+        shmem_async_finalize(spd->id);
+    }
+}
+
 int Initialize(subprocess_descriptor_t *spd, pid_t id, int ncpus,
         const cpu_set_t *mask, const char *lb_args) {
 
@@ -167,12 +193,18 @@ int Initialize(subprocess_descriptor_t *spd, pid_t id, int ncpus,
     }
     if (spd->options.mode == MODE_ASYNC) {
         error = shmem_async_init(spd->id, &spd->pm, &spd->process_mask, spd->options.shm_key);
-        if (error != DLB_SUCCESS) return error;
+        if (error != DLB_SUCCESS) {
+            finalize_shmems(spd);
+            return error;
+        }
     }
 
     // Initialise LeWI
     error = spd->lb_funcs.init(spd);
-    if (error != DLB_SUCCESS) return error;
+    if (error != DLB_SUCCESS) {
+        finalize_shmems(spd);
+        return error;
+    }
 
     // Initialize TALP
     if  (spd->options.talp) {
@@ -231,28 +263,7 @@ int Finish(subprocess_descriptor_t *spd) {
         spd->lb_funcs.finalize(spd);
         spd->lb_funcs.finalize = NULL;
     }
-    if (spd->options.barrier) {
-        node_barrier_finalize(spd);
-        shmem_barrier__finalize(spd->options.shm_key);
-    }
-    if (spd->lb_policy == POLICY_LEWI_MASK
-            || spd->options.drom
-            || spd->options.talp
-            || spd->options.ompt
-            || spd->options.preinit_pid) {
-        /* cpuinfo is not initialized if only procinfo is needed, do not close the
-         * shared memory if it was opened by other means (e.g., DLB_TALP_Attach) */
-        if (spd->lb_policy == POLICY_LEWI_MASK
-                || spd->options.drom
-                || spd->options.preinit_pid) {
-            shmem_cpuinfo__finalize(spd->id, spd->options.shm_key, spd->options.lewi_color);
-        }
-        shmem_procinfo__finalize(spd->id, spd->options.debug_opts & DBG_RETURNSTOLEN,
-                spd->options.shm_key);
-    }
-    if (spd->options.mode == MODE_ASYNC) {
-        shmem_async_finalize(spd->id);
-    }
+    finalize_shmems(spd);
     timer_finalize();
     instrument_event(RUNTIME_EVENT, EVENT_FINALIZE, EVENT_END);
     instrument_finalize();
-- 
2.43.0


From a63dab345c406b06e5faeed7fabddc3c17f7e87c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:54 +0000
Subject: [PATCH 36/75] fix: enqueue the request of CPUs also after an
 unsuccessful borrow

---
 src/LB_comm/shmem_cpuinfo.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/LB_comm/shmem_cpuinfo.c b/src/LB_comm/shmem_cpuinfo.c
index 12394bf..b4b9607 100644
--- a/src/LB_comm/shmem_cpuinfo.c
+++ b/src/LB_comm/shmem_cpuinfo.c
@@ -1258,8 +1258,11 @@ int shmem_cpuinfo__acquire_ncpus_from_cpu_subset(
     }
 
     /* Return immediately if there is nothing left to acquire */
-    /* 1) If the timestamp of the last unsuccessful borrow is newer than the last CPU lent */
-    if (last_borrow && *last_borrow > DLB_ATOMIC_LD_ACQ(&shdata->timestamp_cpu_lent)) {
+    /* 1) If the timestamp of the last unsuccessful borrow is newer than the last CPU lent
+     * (and there is no need to enqueue a request for the CPUs not acquired) */
+    bool may_need_request = requested_ncpus && shdata->flags.queues_enabled;
+    if (!may_need_request
+            && last_borrow && *last_borrow > DLB_ATOMIC_LD_ACQ(&shdata->timestamp_cpu_lent)) {
         /* 2) Unless there's an owned CPUs not guested, in that case we will acquire anyway */
         bool all_owned_cpus_are_guested = true;
         for (unsigned int i=0; i<cpus_priority_array->count; ++i) {
-- 
2.43.0


From cdbb10de43850f6e2979045f1b8690099a1933bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:07 +0000
Subject: [PATCH 37/75] fix: clean up of dead processes only touches barriers
 in use

---
 src/LB_comm/shmem_barrier.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/LB_comm/shmem_barrier.c b/src/LB_comm/shmem_barrier.c
index 71b2575..0b310e6 100644
--- a/src/LB_comm/shmem_barrier.c
+++ b/src/LB_comm/shmem_barrier.c
@@ -73,8 +73,22 @@ static void cleanup_shmem(void *shdata_ptr, int pid) {
     int i;
     for (i = 0; i < max_barriers; i++) {
         barrier_t *barrier = &shared_data->barriers[i];
+        if (!barrier->flags.initialized || barrier->participants == 0) {
+            /* Not used */
+            continue;
+        }
         if (--barrier->participants == 0) {
             *barrier = (const barrier_t){};
+        } else if (pthread_rwlock_trywrlock(&barrier->rwlock) == 0) {
+            /* Create new barrier with the number of participants updated
+             * (a barrier in use cannot be modified) */
+            pthread_barrier_destroy(&barrier->barrier);
+            pthread_barrierattr_t attr;
+            pthread_barrierattr_init(&attr);
+            pthread_barrierattr_setpshared(&attr, PTHREAD_PROCESS_SHARED);
+            pthread_barrier_init(&barrier->barrier, &attr, barrier->participants);
+            pthread_barrierattr_destroy(&attr);
+            pthread_rwlock_unlock(&barrier->rwlock);
         }
     }
 }
-- 
2.43.0


From 63f580b39163a14745703116deb73eb0495c54f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:46 +0000
Subject: [PATCH 38/75] fix: fatal error on a full message queue deadlocked
 while cleaning up

---
 src/LB_comm/shmem_async.c | 51 ++++++++++++++++++++++++---------------
 1 file changed, 32 insertions(+), 19 deletions(-)

diff --git a/src/LB_comm/shmem_async.c b/src/LB_comm/shmem_async.c
index 1b3deb7..1dbc43e 100644
--- a/src/LB_comm/shmem_async.c
+++ b/src/LB_comm/shmem_async.c
@@ -102,25 +102,26 @@ static helper_t* get_helper(pid_t pid) {
     return NULL;
 }
 
-/* The shared memory must be locked, the helper could be deregistered otherwise */
-static void enqueue_message(helper_t *helper, const message_t *message) {
+/* The shared memory must be locked, the helper could be deregistered otherwise.
+ * Return false if the queue is full */
+static bool enqueue_message(helper_t *helper, const message_t *message) {
     /* Discard message if helper does not accept new inputs */
     if (helper->joinable) {
-        return;
+        return true;
     }
 
     pthread_mutex_lock(&helper->q_lock);
 
-    /* If ACTION_JOIN, flag helper to reject further messages */
-    if (message->action == ACTION_JOIN) {
-        helper->joinable = true;
-    }
-
     /* Get next_head index and check that buffer is not full */
     unsigned int next_head = (helper->q_head + 1) % QUEUE_SIZE;
     if (__builtin_expect((next_head == helper->q_tail), 0)) {
         pthread_mutex_unlock(&helper->q_lock);
-        fatal("Max petitions requested for asynchronous thread");
+        return false;
+    }
+
+    /* If ACTION_JOIN, flag helper to reject further messages */
+    if (message->action == ACTION_JOIN) {
+        helper->joinable = true;
     }
 
     /* Enqueue message and update head */
@@ -132,19 +133,25 @@ static void enqueue_message(helper_t *helper, const message_t *message) {
     pthread_cond_signal(&helper->q_wait_data);
 
     pthread_mutex_unlock(&helper->q_lock);
+
+    return true;
 }
 
 /* Send message to pid, if it has a helper thread */
 static void send_message(pid_t pid, const message_t *message) {
     if (shm_handler == NULL) return;
+    bool full = false;
     shmem_lock(shm_handler);
     {
         helper_t *helper = get_helper(pid);
         if (helper) {
-            enqueue_message(helper, message);
+            full = !enqueue_message(helper, message);
         }
     }
     shmem_unlock(shm_handler);
+
+    /* (dlb_clean needs the shared memory to be unlocked) */
+    fatal_cond(full, "Max petitions requested for asynchronous thread");
 }
 
 static void dequeue_message(helper_t *helper, message_t *message) {
@@ -333,16 +340,22 @@ int shmem_async_finalize(pid_t pid) {
     if (shm_handler == NULL) return DLB_ERR_NOPROC;
 
     helper_t *helper;
-    shmem_lock(shm_handler);
-    {
-        helper = get_helper(pid);
-        if (helper) {
-            /* Enqueue JOIN message  */
-            message_t message = { .action = ACTION_JOIN };
-            enqueue_message(helper, &message);
+    bool full = false;
+    do {
+        /* Wait until the helper thread makes some room in the queue */
+        if (full) usleep(1000);
+
+        shmem_lock(shm_handler);
+        {
+            helper = get_helper(pid);
+            if (helper) {
+                /* Enqueue JOIN message  */
+                message_t message = { .action = ACTION_JOIN };
+                full = !enqueue_message(helper, &message);
+            }
         }
-    }
-    shmem_unlock(shm_handler);
+        shmem_unlock(shm_handler);
+    } while (helper && full);
 
     if (helper) {
         /* Wait helper thread to finish */
-- 
2.43.0


From 82f10c62bc01e94b5599ecb883da944d72231b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:28 +0000
Subject: [PATCH 39/75] fix: a CPU lost in a blocking call and obtained again
 was disabled in Return while still assigned

---
 src/LB_policies/lewi_mask.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/LB_policies/lewi_mask.c b/src/LB_policies/lewi_mask.c
index 2e402d1..9ee397d 100644
--- a/src/LB_policies/lewi_mask.c
+++ b/src/LB_policies/lewi_mask.c
@@ -512,6 +512,7 @@ int lewi_mask_OutOfBlockingCall(const subprocess_descriptor_t *spd) {
                 /* Keep only the CPUs that could not be borrowed */
                 for (size_t i = 0; i < tasks->count; ++i) {
                     CPU_CLR(tasks->items[i].cpuid, &non_owned_cpus);
+                    CPU_CLR(tasks->items[i].cpuid, &lewi_info->pending_reclaimed_cpus);
                 }
             }
 
@@ -811,7 +812,13 @@ int lewi_mask_ReturnCpuMask(const subprocess_descriptor_t *spd, const cpu_set_t
 // Others
 
 int lewi_mask_CheckCpuAvailability(const subprocess_descriptor_t *spd, int cpuid) {
-    return shmem_cpuinfo__check_cpu_availability(spd->id, cpuid);
+    int error = shmem_cpuinfo__check_cpu_availability(spd->id, cpuid);
+    if (error == DLB_SUCCESS) {
+        /* The CPU can be used, it is no longer pending to be returned */
+        lewi_info_t *lewi_info = spd->lewi_info;
+        CPU_CLR(cpuid, &lewi_info->pending_reclaimed_cpus);
+    }
+    return error;
 }
 
 int lewi_mask_UpdateOwnership(const subprocess_descriptor_t *spd,
-- 
2.43.0


From c004966dcc1dca9822c8a8125deafd69b345aa34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:28 +0000
Subject: [PATCH 40/75] fix: with SMT, CPUs of a core returned to its owner
 were not borrowed by processes waiting for it

---
 src/LB_comm/shmem_cpuinfo.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/LB_comm/shmem_cpuinfo.c b/src/LB_comm/shmem_cpuinfo.c
index b4b9607..6f1ccda 100644
--- a/src/LB_comm/shmem_cpuinfo.c
+++ b/src/LB_comm/shmem_cpuinfo.c
@@ -1684,10 +1684,12 @@ static int return_cpu(pid_t pid, int cpuid, array_cpuinfo_task_t *restrict tasks
         cpuinfo->guest = NOBODY;
         if (cpuinfo->state == CPU_LENT) {
             CPU_SET(cpuid, &shdata->free_cpus);
-            update_shmem_timestamp();
         }
     }
 
+    // Other CPUs in the same core may be borrowed now, even if this one may not
+    update_shmem_timestamp();
+
     // Possibly clear CPU from occupies cores set
     update_occupied_cores(cpuinfo->owner, cpuinfo->id);
 
@@ -1784,6 +1786,9 @@ static inline void shmem_cpuinfo__return_async(pid_t pid, cpuid_t cpuid) {
         }
     }
 
+    // This or other CPUs in the same core may be borrowed now
+    update_shmem_timestamp();
+
     // Possibly clear CPU from occupies cores set
     update_occupied_cores(cpuinfo->owner, cpuinfo->id);
 
-- 
2.43.0


From f69ec101637f0ac767a2ff7b13c735140968a94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:00 +0000
Subject: [PATCH 41/75] fix: do not forget the TALP regions registered after a
 clean up of dead processes

---
 src/LB_comm/shmem_talp.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/LB_comm/shmem_talp.c b/src/LB_comm/shmem_talp.c
index cc1772d..38d88bc 100644
--- a/src/LB_comm/shmem_talp.c
+++ b/src/LB_comm/shmem_talp.c
@@ -143,8 +143,9 @@ int shmem_talp__init(const char *shmem_key, int shmem_size_multiplier) {
     {
         // Initialize some values if this is the 1st process attached to the shmem
         if (!shdata->initialized && capacity <= max_regions) {
+            // (num_regions is not modified: the shared memory may have been reset by a clean
+            // up of dead processes while in use by others, which may have registered regions)
             shdata->initialized = true;
-            shdata->num_regions = 0;
             shdata->max_regions = capacity;
         }
         existing_max_regions = shdata->max_regions;
-- 
2.43.0


From 48ef7e06263c71c1a7c564521b3b0e1b79763b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:40 +0000
Subject: [PATCH 42/75] fix: recursive fatal error deadlocked when another
 shared memory was also unusable

---
 src/support/debug.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/support/debug.c b/src/support/debug.c
index 32f6a2a..a3cac8f 100644
--- a/src/support/debug.c
+++ b/src/support/debug.c
@@ -306,6 +306,11 @@ static void clean_shmems(pid_t id, const char *shmem_key, int lewi_color) {
 }
 
 void dlb_clean(void) {
+    /* Nothing else can be done if a fatal error is raised while cleaning */
+    static __thread bool cleaning = false;
+    if (cleaning) return;
+    cleaning = true;
+
     pthread_mutex_lock(&dlb_clean_mutex);
     {
         /* First, try to finalize shmems of registered subprocess */
@@ -326,8 +331,11 @@ void dlb_clean(void) {
         int lewi_color = thread_spd ? thread_spd->options.lewi_color : 0;
         clean_shmems(pid, shmem_key, lewi_color);
 
-        /* Finalize shared memories that do not support subprocesses */
-        shmem_barrier__finalize(shmem_key);
+        /* Finalize shared memories that do not support subprocesses
+         * (do not open them now, it could cause a recursive fatal error) */
+        if (shmem_barrier__exists()) {
+            shmem_barrier__finalize(shmem_key);
+        }
         finalize_comm();
 
         /* Destroy shared memories if they still exist */
@@ -341,6 +349,8 @@ void dlb_clean(void) {
         }
     }
     pthread_mutex_unlock(&dlb_clean_mutex);
+
+    cleaning = false;
 }
 
 /* Trigger warning on some errors, tipically common or complex errors during init */
-- 
2.43.0


From ba4724f9b34ff35bbebb8466ae5ea4e42f6186c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:25 +0000
Subject: [PATCH 43/75] fix: classic LeWI: the idle CPUs could be reset while
 other process was attaching

The first attached process resets the counter; a concurrent second process could
lend CPUs before the reset, which were lost.
---
 src/LB_comm/comm_lend_light.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/LB_comm/comm_lend_light.c b/src/LB_comm/comm_lend_light.c
index f14ef41..7d69db9 100644
--- a/src/LB_comm/comm_lend_light.c
+++ b/src/LB_comm/comm_lend_light.c
@@ -77,6 +77,8 @@ void ConfigShMem(int defCPUS, int is_greedy, const char *shmem_key) {
     // Shared memory creation
     open_shmem(shmem_key);
 
+    // The initialization needs the lock, another process may be attaching at the same time
+    shmem_lock(shm_handler);
     if (__sync_fetch_and_add(&shdata->attached_nprocs, 1) == 0) {
         // Initialize shared memory if this is the 1st process attached
         verbose(VB_SHMEM, "setting values to the shared mem");
@@ -87,6 +89,7 @@ void ConfigShMem(int defCPUS, int is_greedy, const char *shmem_key) {
 
         verbose(VB_SHMEM, "Finished setting values to the shared mem");
     }
+    shmem_unlock(shm_handler);
 }
 
 static void close_shmem(void) {
-- 
2.43.0


From 1758d779603de00098faa189f80d28cd44246212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:25 +0000
Subject: [PATCH 44/75] fix: classic LeWI: acquire and check idle CPUs with a
 single atomic update

The greedy acquisition and the borrow read the counter several times, so a
concurrent update could create or lose CPUs.
---
 src/LB_comm/comm_lend_light.c | 39 +++++++++++++++++++----------------
 1 file changed, 21 insertions(+), 18 deletions(-)

diff --git a/src/LB_comm/comm_lend_light.c b/src/LB_comm/comm_lend_light.c
index 7d69db9..6c9a79b 100644
--- a/src/LB_comm/comm_lend_light.c
+++ b/src/LB_comm/comm_lend_light.c
@@ -132,9 +132,14 @@ int acquireCpus(int current_cpus) {
 
 //I don't care if there aren't enough cpus
 
-    if((__sync_sub_and_fetch (&(shdata->idleCpus), cpus)>0) && greedy) {
-        cpus+=__sync_val_compare_and_swap(&(shdata->idleCpus), shdata->idleCpus, 0);
-    }
+    int idle, new_idle, extra;
+    do {
+        idle = shdata->idleCpus;
+        new_idle = idle - cpus;
+        extra = greedy && new_idle > 0 ? new_idle : 0;
+    } while (!__sync_bool_compare_and_swap(&(shdata->idleCpus), idle, new_idle - extra));
+    cpus += extra;
+
     add_event(IDLE_CPUS_EVENT, shdata->idleCpus);
 
     verbose(VB_SHMEM, "Using %d CPUS... %d Idle", cpus, shdata->idleCpus);
@@ -148,26 +153,24 @@ that are assigned
 */
 int checkIdleCpus(int myCpus, int maxResources) {
     verbose(VB_SHMEM, "Checking idle CPUS... %d", shdata->idleCpus);
-    int cpus;
-    int aux;
+    int idle, cpus;
+    do {
+        idle = shdata->idleCpus;
 //WARNING//
-    //if more CPUS than the availables are used release some
-    if ((shdata->idleCpus < 0) && (myCpus>defaultCPUS) ) {
-        aux=shdata->idleCpus;
-        cpus=min_int(abs(aux), myCpus-defaultCPUS);
-        if(__sync_bool_compare_and_swap(&(shdata->idleCpus), aux, aux+cpus)) {
-            myCpus-=cpus;
-        }
+        //if more CPUS than the availables are used release some
+        if (idle < 0 && myCpus > defaultCPUS) {
+            cpus = -min_int(-idle, myCpus-defaultCPUS);
 
         //if there are idle CPUS use them
-    } else if( shdata->idleCpus > 0) {
-        aux=shdata->idleCpus;
-        if(aux>maxResources) { aux=maxResources; }
+        } else if (idle > 0) {
+            cpus = min_int(idle, maxResources);
 
-        if(__sync_bool_compare_and_swap(&(shdata->idleCpus), shdata->idleCpus, shdata->idleCpus-aux)) {
-            myCpus+=aux;
+        } else {
+            cpus = 0;
         }
-    }
+    } while (cpus != 0
+            && !__sync_bool_compare_and_swap(&(shdata->idleCpus), idle, idle-cpus));
+    myCpus += cpus;
     add_event(IDLE_CPUS_EVENT, shdata->idleCpus);
 
     verbose(VB_SHMEM, "Using %d CPUS... %d Idle", myCpus, shdata->idleCpus);
-- 
2.43.0


From 76a004458ef4e1598bc00bc449e18017febb8093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:25 +0000
Subject: [PATCH 45/75] fix: classic LeWI: give back the borrowed CPUs, or take
 the lent ones, on finalize

---
 src/LB_policies/lewi.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/LB_policies/lewi.c b/src/LB_policies/lewi.c
index 9c87c7f..524f48d 100644
--- a/src/LB_policies/lewi.c
+++ b/src/LB_policies/lewi.c
@@ -75,6 +75,9 @@ int lewi_Init(subprocess_descriptor_t *spd) {
 }
 
 int lewi_Finalize(subprocess_descriptor_t *spd) {
+    /* Return borrowed CPUs, or take back the lent ones */
+    releaseCpus(myCPUS-default_cpus);
+    myCPUS = default_cpus;
     finalize_comm();
     return DLB_SUCCESS;
 }
-- 
2.43.0


From 1514736261e6037b307ff23e20e191659099b468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:25 +0000
Subject: [PATCH 46/75] fix: classic LeWI: disabling in greedy mode lost the
 idle CPUs

---
 src/LB_policies/lewi.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/LB_policies/lewi.c b/src/LB_policies/lewi.c
index 524f48d..7b480ac 100644
--- a/src/LB_policies/lewi.c
+++ b/src/LB_policies/lewi.c
@@ -91,7 +91,8 @@ int lewi_EnableDLB(const subprocess_descriptor_t *spd) {
 int lewi_DisableDLB(const subprocess_descriptor_t *spd) {
     if (enabled && !single) {
         verbose(VB_MICROLB, "ResetDLB");
-        acquireCpus(myCPUS);
+        /* Not acquireCpus, it may also obtain idle CPUs (greedy) */
+        releaseCpus(myCPUS-default_cpus);
         setThreads_Lend_light(&spd->pm, default_cpus);
     }
     enabled = 0;
-- 
2.43.0


From 074899cc3202dc7c8ea9527475e612180da4266b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:25 +0000
Subject: [PATCH 47/75] fix: classic LeWI: ignore a non positive max.
 parallelism or number of CPUs to borrow

---
 src/LB_policies/lewi.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/LB_policies/lewi.c b/src/LB_policies/lewi.c
index 7b480ac..eca518e 100644
--- a/src/LB_policies/lewi.c
+++ b/src/LB_policies/lewi.c
@@ -100,6 +100,8 @@ int lewi_DisableDLB(const subprocess_descriptor_t *spd) {
 }
 
 int lewi_SetMaxParallelism(const subprocess_descriptor_t *spd, int max) {
+    if (max <= 0) return DLB_SUCCESS;
+
     if (myCPUS>max){
         releaseCpus(myCPUS-max);
         setThreads_Lend_light(&spd->pm, max);
@@ -166,7 +168,9 @@ int lewi_Borrow(const subprocess_descriptor_t *spd) {
 
 int lewi_BorrowCpus(const subprocess_descriptor_t *spd, int maxResources) {
     int error = DLB_NOUPDT;
-    if (enabled && !single) {
+    if (maxResources <= 0) {
+        /* Nothing to borrow */
+    } else if (enabled && !single) {
         int max_resources = max_parallelism > 0 ?
             min_int(maxResources, max_parallelism - myCPUS) : maxResources;
         int cpus = checkIdleCpus(myCPUS, max_resources);
-- 
2.43.0


From 3bb5f850b9eb3d00278b94291c602f09e0359c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:22 +0000
Subject: [PATCH 48/75] fix: do not reset the callbacks in DLB_Finalize while
 the helper thread may be using them

---
 src/LB_core/DLB_kernel.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/LB_core/DLB_kernel.c b/src/LB_core/DLB_kernel.c
index 3b06400..c14027a 100644
--- a/src/LB_core/DLB_kernel.c
+++ b/src/LB_core/DLB_kernel.c
@@ -254,7 +254,9 @@ int Finish(subprocess_descriptor_t *spd) {
 
     spd->lewi_enabled = false;
 
-    pm_finalize(&spd->pm);
+    if (spd->options.mode != MODE_ASYNC) {
+        pm_finalize(&spd->pm);
+    }
 
     if (spd->options.talp) {
         talp_finalize(spd);
@@ -264,6 +266,10 @@ int Finish(subprocess_descriptor_t *spd) {
         spd->lb_funcs.finalize = NULL;
     }
     finalize_shmems(spd);
+    if (spd->options.mode == MODE_ASYNC) {
+        /* The helper thread uses the callbacks until it is joined */
+        pm_finalize(&spd->pm);
+    }
     timer_finalize();
     instrument_event(RUNTIME_EVENT, EVENT_FINALIZE, EVENT_END);
     instrument_finalize();
-- 
2.43.0


From a4de2f5fb07ef5b983a5040dd205470341382b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:18 +0000
Subject: [PATCH 49/75] fix: asynchronous classic LeWI: DLB_Enable requested
 twice the CPUs previously requested

---
 src/LB_policies/lewi_async.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/LB_policies/lewi_async.c b/src/LB_policies/lewi_async.c
index 8487d06..1bd478c 100644
--- a/src/LB_policies/lewi_async.c
+++ b/src/LB_policies/lewi_async.c
@@ -131,9 +131,12 @@ int lewi_async_Enable(const subprocess_descriptor_t *spd) {
     /* Restore previously requested CPUs */
     lewi_info_t *lewi_info = spd->lewi_info;
     if (lewi_info->prev_requested > 0) {
-        error = lewi_async_AcquireCpus(spd, lewi_info->prev_requested);
-        if (error == DLB_SUCCESS || error == DLB_NOTED) {
-            lewi_info->prev_requested = 0;
+        /* Already added by AcquireCpus to the number of requested CPUs, do not duplicate them */
+        unsigned int prev_requested = lewi_info->prev_requested;
+        lewi_info->prev_requested = 0;
+        error = lewi_async_AcquireCpus(spd, prev_requested);
+        if (error != DLB_SUCCESS && error != DLB_NOTED) {
+            lewi_info->prev_requested = prev_requested;
         }
     }
 
-- 
2.43.0


From ae82fd938dad6c4c3ed7ad3627ecf247dcc5ed13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:31 +0000
Subject: [PATCH 50/75] fix: asynchronous classic LeWI: borrowing a negative
 amount obtained every idle CPU

---
 src/LB_policies/lewi_async.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/LB_policies/lewi_async.c b/src/LB_policies/lewi_async.c
index 1bd478c..4bdc2b5 100644
--- a/src/LB_policies/lewi_async.c
+++ b/src/LB_policies/lewi_async.c
@@ -298,6 +298,9 @@ int lewi_async_Borrow(const subprocess_descriptor_t *spd) {
 }
 
 int lewi_async_BorrowCpus(const subprocess_descriptor_t *spd, int ncpus) {
+
+    if (ncpus <= 0) return DLB_NOUPDT;
+
     unsigned int new_ncpus;
     int error = shmem_lewi_async__borrow_cpus(spd->id, ncpus, &new_ncpus);
     if (error == DLB_SUCCESS) {
-- 
2.43.0


From ece85a19529ef1e3f9593d03ab05dfe8b1ffbb11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:31 +0000
Subject: [PATCH 51/75] fix: asynchronous classic LeWI: requests of a process
 were still attended after DLB_Disable

---
 src/LB_comm/shmem_lewi_async.c | 11 ++++++++---
 src/LB_comm/shmem_lewi_async.h |  2 +-
 src/LB_policies/lewi_async.c   | 14 ++++++++++----
 3 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/LB_comm/shmem_lewi_async.c b/src/LB_comm/shmem_lewi_async.c
index e47f070..e2023de 100644
--- a/src/LB_comm/shmem_lewi_async.c
+++ b/src/LB_comm/shmem_lewi_async.c
@@ -113,13 +113,18 @@ size_t shmem_lewi_async__size(void) {
 /*  Queue management                                                             */
 /*********************************************************************************/
 
-void shmem_lewi_async__remove_requests(pid_t pid) {
-    if (unlikely(shm_handler == NULL)) return;
+/* Remove requests of pid and return the number of CPUs that were requested */
+unsigned int shmem_lewi_async__remove_requests(pid_t pid) {
+    if (unlikely(shm_handler == NULL)) return 0;
+    unsigned int num_requests;
+
     shmem_lock(shm_handler);
     {
-        queue_lewi_reqs_remove(&shdata->requests, pid);
+        num_requests = queue_lewi_reqs_remove(&shdata->requests, pid);
     }
     shmem_unlock(shm_handler);
+
+    return num_requests;
 }
 
 /* Only for testing purposes */
diff --git a/src/LB_comm/shmem_lewi_async.h b/src/LB_comm/shmem_lewi_async.h
index 804a6b3..5200118 100644
--- a/src/LB_comm/shmem_lewi_async.h
+++ b/src/LB_comm/shmem_lewi_async.h
@@ -28,7 +28,7 @@ int shmem_lewi_async__version(void);
 
 size_t shmem_lewi_async__size(void);
 
-void shmem_lewi_async__remove_requests(pid_t pid);
+unsigned int shmem_lewi_async__remove_requests(pid_t pid);
 
 unsigned int shmem_lewi_async__get_num_requests(pid_t pid);
 
diff --git a/src/LB_policies/lewi_async.c b/src/LB_policies/lewi_async.c
index 4bdc2b5..2bfe534 100644
--- a/src/LB_policies/lewi_async.c
+++ b/src/LB_policies/lewi_async.c
@@ -146,6 +146,9 @@ int lewi_async_Enable(const subprocess_descriptor_t *spd) {
 int lewi_async_Disable(const subprocess_descriptor_t *spd) {
     verbose(VB_MICROLB, "Reset LeWI");
 
+    /* Requests must not be attended while disabled */
+    unsigned int removed_requests = shmem_lewi_async__remove_requests(spd->id);
+
     unsigned int new_ncpus;
     unsigned int num_requests;
     unsigned int prev_requested;
@@ -153,13 +156,16 @@ int lewi_async_Disable(const subprocess_descriptor_t *spd) {
     int error = shmem_lewi_async__reset(spd->id, &new_ncpus, requests,
             &num_requests, node_size, &prev_requested);
 
-    if (error == DLB_SUCCESS) {
-
-        /* Save previously requested CPUs to push request again later */
-        if (prev_requested > 0 ) {
+    /* Save previously requested CPUs to push request again later */
+    if (error == DLB_SUCCESS || error == DLB_NOUPDT) {
+        prev_requested += removed_requests;
+        if (prev_requested > 0) {
             lewi_info_t *lewi_info = spd->lewi_info;
             lewi_info->prev_requested = prev_requested;
         }
+    }
+
+    if (error == DLB_SUCCESS) {
 
         /* Set num_threads = new_ncpus */
         lewi_async_set_num_threads(&spd->pm, new_ncpus);
-- 
2.43.0


From ae80775454e5df3c0a279df41f0b7425c1389f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:05 +0000
Subject: [PATCH 52/75] fix: asynchronous classic LeWI: do not continue if the
 process cannot be registered

DLB_Init succeeded, every later call failed and DLB_Finalize used uninitialized
data and left the counter of attached processes incremented.
---
 src/LB_comm/shmem_lewi_async.c | 38 +++++++++++++++++++++-------------
 src/LB_comm/shmem_lewi_async.h |  2 +-
 src/LB_policies/lewi_async.c   |  9 ++++++--
 3 files changed, 32 insertions(+), 17 deletions(-)

diff --git a/src/LB_comm/shmem_lewi_async.c b/src/LB_comm/shmem_lewi_async.c
index e2023de..767617d 100644
--- a/src/LB_comm/shmem_lewi_async.c
+++ b/src/LB_comm/shmem_lewi_async.c
@@ -167,7 +167,20 @@ static void open_shmem(const char *shmem_key) {
     pthread_mutex_unlock(&mutex);
 }
 
-void shmem_lewi_async__init(pid_t pid, unsigned int ncpus, const char *shmem_key) {
+static void close_shmem(void) {
+    pthread_mutex_lock(&mutex);
+    {
+        if (--subprocesses_attached == 0) {
+            shmem_finalize(shm_handler, is_shmem_empty);
+            shm_handler = NULL;
+            shdata = NULL;
+        }
+    }
+    pthread_mutex_unlock(&mutex);
+}
+
+int shmem_lewi_async__init(pid_t pid, unsigned int ncpus, const char *shmem_key) {
+    int error = DLB_SUCCESS;
     verbose(VB_SHMEM, "Initializing LeWI_async shared memory");
 
     // Shared memory creation
@@ -175,7 +188,7 @@ void shmem_lewi_async__init(pid_t pid, unsigned int ncpus, const char *shmem_key
 
     shmem_lock(shm_handler);
     {
-        if (++shdata->attached_nprocs == 1) {
+        if (shdata->attached_nprocs == 0) {
             // first attached process, initialize common structures
             shdata->idle_cpus = 0;
             queue_lewi_reqs_init(&shdata->requests);
@@ -200,9 +213,18 @@ void shmem_lewi_async__init(pid_t pid, unsigned int ncpus, const char *shmem_key
                 .current_ncpus = ncpus,
             };
             my_process = process;
+            ++shdata->attached_nprocs;
+        } else {
+            error = DLB_ERR_NOMEM;
         }
     }
     shmem_unlock(shm_handler);
+
+    if (error != DLB_SUCCESS) {
+        close_shmem();
+    }
+
+    return error;
 }
 
 
@@ -262,18 +284,6 @@ static int reset_process(lewi_process_t *process, lewi_request_t *requests,
     return error;
 }
 
-static void close_shmem(void) {
-    pthread_mutex_lock(&mutex);
-    {
-        if (--subprocesses_attached == 0) {
-            shmem_finalize(shm_handler, is_shmem_empty);
-            shm_handler = NULL;
-            shdata = NULL;
-        }
-    }
-    pthread_mutex_unlock(&mutex);
-}
-
 void shmem_lewi_async__finalize(pid_t pid, unsigned int *new_ncpus,
         lewi_request_t *requests, unsigned int *nreqs, unsigned int maxreqs) {
 
diff --git a/src/LB_comm/shmem_lewi_async.h b/src/LB_comm/shmem_lewi_async.h
index 5200118..b22a45b 100644
--- a/src/LB_comm/shmem_lewi_async.h
+++ b/src/LB_comm/shmem_lewi_async.h
@@ -32,7 +32,7 @@ unsigned int shmem_lewi_async__remove_requests(pid_t pid);
 
 unsigned int shmem_lewi_async__get_num_requests(pid_t pid);
 
-void shmem_lewi_async__init(pid_t pid, unsigned int ncpus, const char *shmem_key);
+int shmem_lewi_async__init(pid_t pid, unsigned int ncpus, const char *shmem_key);
 
 void shmem_lewi_async__finalize(pid_t pid, unsigned int *new_ncpus,
         lewi_request_t *requests, unsigned int *nreqs, unsigned int maxreqs);
diff --git a/src/LB_policies/lewi_async.c b/src/LB_policies/lewi_async.c
index 2bfe534..920f753 100644
--- a/src/LB_policies/lewi_async.c
+++ b/src/LB_policies/lewi_async.c
@@ -97,9 +97,14 @@ int lewi_async_Init(subprocess_descriptor_t *spd) {
     info0("Default cpus per process: %d", initial_ncpus);
 
     // Initialize shared memory
-    shmem_lewi_async__init(spd->id, initial_ncpus, spd->options.shm_key);
+    int error = shmem_lewi_async__init(spd->id, initial_ncpus, spd->options.shm_key);
+    if (error != DLB_SUCCESS) {
+        warning("Cannot register process %d in the LeWI_async shared memory", spd->id);
+        free(spd->lewi_info);
+        spd->lewi_info = NULL;
+    }
 
-    return DLB_SUCCESS;
+    return error;
 }
 
 int lewi_async_Finalize(subprocess_descriptor_t *spd) {
-- 
2.43.0


From 45405597c46cfc982f661c2e9ddd758902a7ed18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:13 +0000
Subject: [PATCH 53/75] fix: asynchronous classic LeWI: remove the data of dead
 processes

Only the counter was updated: its entry was never reused, CPUs were handed to its
requests, and the CPUs it had borrowed were lost.
---
 src/LB_comm/shmem_lewi_async.c | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/LB_comm/shmem_lewi_async.c b/src/LB_comm/shmem_lewi_async.c
index 767617d..b90f466 100644
--- a/src/LB_comm/shmem_lewi_async.c
+++ b/src/LB_comm/shmem_lewi_async.c
@@ -69,8 +69,23 @@ static int reclaim_from_shmem(lewi_process_t *process, unsigned int ncpus,
 
 static void cleanup_shmem(void *shdata_ptr, int pid) {
     lewi_async_shdata_t *shared_data = shdata_ptr;
-    if (shared_data->attached_nprocs > 0) {
-        --shared_data->attached_nprocs;
+    for (unsigned int p = 0; p < shared_data->proc_list_head; ++p) {
+        lewi_process_t *process = &shared_data->processes[p];
+        if (process->pid == pid) {
+            /* Return the excess of CPUs, or remove from the idle CPUs the lent ones */
+            if (process->current_ncpus > process->initial_ncpus) {
+                shared_data->idle_cpus += process->current_ncpus - process->initial_ncpus;
+            } else {
+                shared_data->idle_cpus -= min_uint(shared_data->idle_cpus,
+                        process->initial_ncpus - process->current_ncpus);
+            }
+
+            /* Remove requests and process data */
+            queue_lewi_reqs_remove(&shared_data->requests, pid);
+            *process = (const lewi_process_t) {};
+            --shared_data->attached_nprocs;
+            break;
+        }
     }
 }
 
-- 
2.43.0


From 18730df41a4afde612f4c63839067802483290b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:24 +0000
Subject: [PATCH 54/75] fix: asynchronous classic LeWI: remove the requests and
 reset in DLB_Disable atomically

---
 src/LB_comm/shmem_lewi_async.c | 21 +++++++++++++++++----
 src/LB_comm/shmem_lewi_async.h |  3 +++
 src/LB_policies/lewi_async.c   |  7 ++-----
 3 files changed, 22 insertions(+), 9 deletions(-)

diff --git a/src/LB_comm/shmem_lewi_async.c b/src/LB_comm/shmem_lewi_async.c
index b90f466..4fa7735 100644
--- a/src/LB_comm/shmem_lewi_async.c
+++ b/src/LB_comm/shmem_lewi_async.c
@@ -729,9 +729,9 @@ int shmem_lewi_async__borrow_cpus(pid_t pid, unsigned int ncpus,
 /*  Reset (Lend or Reclaim)                                                      */
 /*********************************************************************************/
 
-int shmem_lewi_async__reset(pid_t pid, unsigned int *new_ncpus,
-        lewi_request_t *requests, unsigned int *nreqs, unsigned int maxreqs,
-        unsigned int *prev_requested) {
+static int reset(pid_t pid, unsigned int *new_ncpus, lewi_request_t *requests,
+        unsigned int *nreqs, unsigned int maxreqs, unsigned int *prev_requested,
+        bool clear_requests) {
 
     if (unlikely(shm_handler == NULL)) return DLB_ERR_NOSHMEM;
 
@@ -747,7 +747,7 @@ int shmem_lewi_async__reset(pid_t pid, unsigned int *new_ncpus,
     unsigned int idle_cpus;
     shmem_lock(shm_handler);
     {
-        if (process->initial_ncpus != process->current_ncpus) {
+        if (process->initial_ncpus != process->current_ncpus || clear_requests) {
             error = reset_process(process, requests, nreqs, maxreqs, prev_requested);
         }
 
@@ -763,3 +763,16 @@ int shmem_lewi_async__reset(pid_t pid, unsigned int *new_ncpus,
 
     return error;
 }
+
+int shmem_lewi_async__reset(pid_t pid, unsigned int *new_ncpus,
+        lewi_request_t *requests, unsigned int *nreqs, unsigned int maxreqs,
+        unsigned int *prev_requested) {
+    return reset(pid, new_ncpus, requests, nreqs, maxreqs, prev_requested, false);
+}
+
+/* Same as reset, but the pending requests are removed in any case */
+int shmem_lewi_async__reset_and_clear(pid_t pid, unsigned int *new_ncpus,
+        lewi_request_t *requests, unsigned int *nreqs, unsigned int maxreqs,
+        unsigned int *prev_requested) {
+    return reset(pid, new_ncpus, requests, nreqs, maxreqs, prev_requested, true);
+}
diff --git a/src/LB_comm/shmem_lewi_async.h b/src/LB_comm/shmem_lewi_async.h
index b22a45b..501b1ab 100644
--- a/src/LB_comm/shmem_lewi_async.h
+++ b/src/LB_comm/shmem_lewi_async.h
@@ -59,5 +59,8 @@ int shmem_lewi_async__borrow_cpus(pid_t pid, unsigned int ncpus,
 int shmem_lewi_async__reset(pid_t pid, unsigned int *new_ncpus,
         lewi_request_t *requests, unsigned int *nreqs, unsigned int maxreqs,
         unsigned int *prev_requested);
+int shmem_lewi_async__reset_and_clear(pid_t pid, unsigned int *new_ncpus,
+        lewi_request_t *requests, unsigned int *nreqs, unsigned int maxreqs,
+        unsigned int *prev_requested);
 
 #endif /* SHMEM_LEWI_ASYNC_H */
diff --git a/src/LB_policies/lewi_async.c b/src/LB_policies/lewi_async.c
index 920f753..44273e2 100644
--- a/src/LB_policies/lewi_async.c
+++ b/src/LB_policies/lewi_async.c
@@ -151,19 +151,16 @@ int lewi_async_Enable(const subprocess_descriptor_t *spd) {
 int lewi_async_Disable(const subprocess_descriptor_t *spd) {
     verbose(VB_MICROLB, "Reset LeWI");
 
-    /* Requests must not be attended while disabled */
-    unsigned int removed_requests = shmem_lewi_async__remove_requests(spd->id);
-
     unsigned int new_ncpus;
     unsigned int num_requests;
     unsigned int prev_requested;
     SMALL_ARRAY(lewi_request_t, requests, node_size);
-    int error = shmem_lewi_async__reset(spd->id, &new_ncpus, requests,
+    /* Requests are removed with the reset, they must not be attended while disabled */
+    int error = shmem_lewi_async__reset_and_clear(spd->id, &new_ncpus, requests,
             &num_requests, node_size, &prev_requested);
 
     /* Save previously requested CPUs to push request again later */
     if (error == DLB_SUCCESS || error == DLB_NOUPDT) {
-        prev_requested += removed_requests;
         if (prev_requested > 0) {
             lewi_info_t *lewi_info = spd->lewi_info;
             lewi_info->prev_requested = prev_requested;
-- 
2.43.0


From ed04c3a46346695f4d0205a3e97c071c37618de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:16 +0000
Subject: [PATCH 55/75] fix: asynchronous LeWI: a reclaimed CPU that its guest
 already gave up was requested again on its behalf

The guest may lend the CPU or finalize between the moment the owner reclaims
it and the moment the owner returns it on behalf of the guest. Then the queue
got a request of a process that may not even exist, which later was assigned
the CPU forever.
---
 src/LB_comm/shmem_cpuinfo.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/LB_comm/shmem_cpuinfo.c b/src/LB_comm/shmem_cpuinfo.c
index 6f1ccda..6240349 100644
--- a/src/LB_comm/shmem_cpuinfo.c
+++ b/src/LB_comm/shmem_cpuinfo.c
@@ -1773,8 +1773,9 @@ int shmem_cpuinfo__return_cpu_mask(pid_t pid, const cpu_set_t *mask,
 static inline void shmem_cpuinfo__return_async(pid_t pid, cpuid_t cpuid) {
     cpuinfo_t *cpuinfo = &shdata->node_info[cpuid];
 
-    ensure(cpuinfo->owner != pid
-            && cpuinfo->guest == pid, "cpuinfo inconsistency in %s", __func__);
+    /* The guest may have lent the CPU, or finalized, after it was reclaimed.
+     * In that case there is nothing to return, and it must not get a request */
+    if (cpuinfo->owner == pid || cpuinfo->guest != pid) return;
 
     /* 'cpuid' should only be a guested non-owned CPU */
     if (cpuinfo->state == CPU_BUSY) {
-- 
2.43.0


From 8211eeaeee86ef6ae68f27e9da60be00450346d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:05 +0000
Subject: [PATCH 56/75] fix: LeWI: leaving a blocking call disabled CPUs that
 were obtained again meanwhile

A CPU lent by IntoBlockingCall may be assigned again to the process before
OutOfBlockingCall, e.g. if it had a pending request. OutOfBlockingCall told
the process to stop using it although it was still assigned to the process.
---
 src/LB_comm/shmem_cpuinfo.c | 12 ++++++++++++
 src/LB_comm/shmem_cpuinfo.h |  3 +++
 src/LB_policies/lewi_mask.c | 10 ++++++++++
 3 files changed, 25 insertions(+)

diff --git a/src/LB_comm/shmem_cpuinfo.c b/src/LB_comm/shmem_cpuinfo.c
index 6240349..08921dc 100644
--- a/src/LB_comm/shmem_cpuinfo.c
+++ b/src/LB_comm/shmem_cpuinfo.c
@@ -2181,6 +2181,18 @@ int shmem_cpuinfo__check_cpu_availability(pid_t pid, int cpuid) {
     return error;
 }
 
+bool shmem_cpuinfo__is_guest(pid_t pid, cpuid_t cpuid) {
+    if (shm_handler == NULL || cpuid < 0 || cpuid >= node_size) return false;
+
+    bool is_guest;
+    shmem_lock(shm_handler);
+    {
+        is_guest = shdata->node_info[cpuid].guest == pid;
+    }
+    shmem_unlock(shm_handler);
+    return is_guest;
+}
+
 bool shmem_cpuinfo__exists(void) {
     return shm_handler != NULL;
 }
diff --git a/src/LB_comm/shmem_cpuinfo.h b/src/LB_comm/shmem_cpuinfo.h
index f82598e..a79ac07 100644
--- a/src/LB_comm/shmem_cpuinfo.h
+++ b/src/LB_comm/shmem_cpuinfo.h
@@ -107,6 +107,9 @@ int shmem_cpuinfo__get_thread_binding(pid_t pid, int thread_num);
 int shmem_cpuinfo__get_nth_non_owned_cpu(pid_t pid, int nth_cpu);
 int shmem_cpuinfo__get_number_of_non_owned_cpus(pid_t pid);
 int shmem_cpuinfo__check_cpu_availability(pid_t pid, int cpu);
+
+/* Return whether the process is currently the guest of the CPU */
+bool shmem_cpuinfo__is_guest(pid_t pid, cpuid_t cpuid);
 bool shmem_cpuinfo__exists(void);
 void shmem_cpuinfo__enable_request_queues(void);
 void shmem_cpuinfo__remove_requests(pid_t pid);
diff --git a/src/LB_policies/lewi_mask.c b/src/LB_policies/lewi_mask.c
index 9ee397d..7f81dc8 100644
--- a/src/LB_policies/lewi_mask.c
+++ b/src/LB_policies/lewi_mask.c
@@ -516,6 +516,16 @@ int lewi_mask_OutOfBlockingCall(const subprocess_descriptor_t *spd) {
                 }
             }
 
+            /* Skip the CPUs that the process obtained again meanwhile (by
+             * another thread, or as an attended request) */
+            for (int cpuid = mu_get_first_cpu(&non_owned_cpus);
+                    cpuid >= 0;
+                    cpuid = mu_get_next_cpu(&non_owned_cpus, cpuid)) {
+                if (shmem_cpuinfo__is_guest(spd->id, cpuid)) {
+                    CPU_CLR(cpuid, &non_owned_cpus);
+                }
+            }
+
             /* We lost these CPUs while in MPI. */
             if (mu_count(&non_owned_cpus) > 0) {
                 if (spd->options.mode == MODE_ASYNC) {
-- 
2.43.0


From 01f7386d396386248ceeb7373c21a0213df7b85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:55 +0000
Subject: [PATCH 57/75] fix: asynchronous LeWI: DLB_SetMaxParallelism obtained
 back the CPUs it was lending

If the process had pending requests, the CPUs lent by SetMaxParallelism were
assigned again to it, while it was told both to enable and disable them.
---
 src/LB_comm/shmem_cpuinfo.c | 37 ++++++++++++++++++++++++++++---------
 1 file changed, 28 insertions(+), 9 deletions(-)

diff --git a/src/LB_comm/shmem_cpuinfo.c b/src/LB_comm/shmem_cpuinfo.c
index 08921dc..2f77518 100644
--- a/src/LB_comm/shmem_cpuinfo.c
+++ b/src/LB_comm/shmem_cpuinfo.c
@@ -1924,6 +1924,18 @@ int shmem_cpuinfo__reset(pid_t pid, array_cpuinfo_task_t *restrict tasks) {
     return error;
 }
 
+/* Remove every request of the process. The shm lock must be held */
+static void remove_requests(pid_t pid) {
+    /* Remove global requests (pair <pid,howmany>) */
+    queue_lewi_mask_request_t_remove(&shdata->lewi_mask_requests, pid);
+
+    /* Remove specific CPU requests */
+    for (int cpuid=0; cpuid<node_size; ++cpuid) {
+        cpuinfo_t *cpuinfo = &shdata->node_info[cpuid];
+        queue_pid_t_remove(&cpuinfo->requests, pid);
+    }
+}
+
 /* Lend as many CPUs as needed to only guest as much as 'max' CPUs */
 int shmem_cpuinfo__update_max_parallelism(pid_t pid, unsigned int max,
         array_cpuinfo_task_t *restrict tasks) {
@@ -1933,6 +1945,21 @@ int shmem_cpuinfo__update_max_parallelism(pid_t pid, unsigned int max,
     SMALL_ARRAY(cpuid_t, guested_cpus, node_size);
     shmem_lock(shm_handler);
     {
+        // If some CPU needs to be lent, remove any previous request first so that
+        // the process is not assigned more CPUs than the maximum
+        if (shdata->flags.queues_enabled) {
+            unsigned int count = 0;
+            for (cpuid_t cpuid=0; cpuid<node_size; ++cpuid) {
+                const cpuinfo_t *cpuinfo = &shdata->node_info[cpuid];
+                if (cpuinfo->owner == pid || cpuinfo->guest == pid) {
+                    ++count;
+                }
+            }
+            if (max < count) {
+                remove_requests(pid);
+            }
+        }
+
         for (cpuid_t cpuid=0; cpuid<node_size; ++cpuid) {
             const cpuinfo_t *cpuinfo = &shdata->node_info[cpuid];
             if (cpuinfo->owner == pid) {
@@ -2210,15 +2237,7 @@ void shmem_cpuinfo__remove_requests(pid_t pid) {
     {
         /* Remove any previous request for the specific pid */
         if (shdata->flags.queues_enabled) {
-            /* Remove global requests (pair <pid,howmany>) */
-            queue_lewi_mask_request_t_remove(&shdata->lewi_mask_requests, pid);
-
-            /* Remove specific CPU requests */
-            int cpuid;
-            for (cpuid=0; cpuid<node_size; ++cpuid) {
-                cpuinfo_t *cpuinfo = &shdata->node_info[cpuid];
-                queue_pid_t_remove(&cpuinfo->requests, pid);
-            }
+            remove_requests(pid);
         }
     }
     shmem_unlock(shm_handler);
-- 
2.43.0


From a9cdee88d95a9fadbff86ac0ac8f7500dff01098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:21 +0000
Subject: [PATCH 58/75] fix: asynchronous LeWI: requests of the rest of CPUs in
 a core were not attended when the last one was lent

With SMT, the last CPU lent in a core makes the whole core available. The
requests for the other CPUs were only attended if the last CPU was requested
as well.
---
 src/LB_comm/shmem_cpuinfo.c | 47 +++++++++++++++++++------------------
 1 file changed, 24 insertions(+), 23 deletions(-)

diff --git a/src/LB_comm/shmem_cpuinfo.c b/src/LB_comm/shmem_cpuinfo.c
index 2f77518..bbe821e 100644
--- a/src/LB_comm/shmem_cpuinfo.c
+++ b/src/LB_comm/shmem_cpuinfo.c
@@ -651,30 +651,31 @@ static void lend_cpu(pid_t pid, int cpuid, array_cpuinfo_task_t *restrict tasks)
                         .pid = new_guest,
                         .cpuid = cpuid,
                     });
+        }
+    }
 
-            // If SMT is enabled, this CPU could have been the last lent
-            // CPU in core, allowing find_new_guest to find new guests for
-            // the rest of CPUs in the core. Iterate the rest of cpus now:
-            const mu_cpuset_t *core_mask = mu_get_core_mask(cpuid);
-            for (int cpuid_in_core = core_mask->first_cpuid;
-                    cpuid_in_core >= 0;
-                    cpuid_in_core = mu_get_next_cpu(core_mask->set, cpuid_in_core)) {
-                if (cpuid_in_core != cpuid) {
-                    cpuinfo_t *cpuinfo_in_core = &shdata->node_info[cpuid_in_core];
-                    if (cpuinfo_in_core->guest == NOBODY) {
-                        new_guest = find_new_guest(cpuinfo_in_core);
-                        if (new_guest != NOBODY) {
-                            cpuinfo_in_core->guest = new_guest;
-                            array_cpuinfo_task_t_push(
-                                    tasks,
-                                    (const cpuinfo_task_t) {
-                                    .action = ENABLE_CPU,
-                                    .pid = new_guest,
-                                    .cpuid = cpuid_in_core,
-                                    });
-                            CPU_CLR(cpuid_in_core, &shdata->free_cpus);
-                        }
-                    }
+    // If SMT is enabled, this CPU could have been the last lent CPU in core,
+    // allowing find_new_guest to find new guests for the rest of CPUs in the
+    // core, even if this one is not requested. Iterate the rest of cpus now:
+    const mu_cpuset_t *core_mask = mu_get_core_mask(cpuid);
+    for (int cpuid_in_core = core_mask->first_cpuid;
+            cpuid_in_core >= 0;
+            cpuid_in_core = mu_get_next_cpu(core_mask->set, cpuid_in_core)) {
+        if (cpuid_in_core != cpuid) {
+            cpuinfo_t *cpuinfo_in_core = &shdata->node_info[cpuid_in_core];
+            if (cpuinfo_in_core->guest == NOBODY) {
+                pid_t new_guest = find_new_guest(cpuinfo_in_core);
+                if (new_guest != NOBODY) {
+                    cpuinfo_in_core->guest = new_guest;
+                    array_cpuinfo_task_t_push(
+                            tasks,
+                            (const cpuinfo_task_t) {
+                            .action = ENABLE_CPU,
+                            .pid = new_guest,
+                            .cpuid = cpuid_in_core,
+                            });
+                    CPU_CLR(cpuid_in_core, &shdata->free_cpus);
+                    update_occupied_cores(cpuinfo_in_core->owner, cpuid_in_core);
                 }
             }
         }
-- 
2.43.0


From 50a0f1cc244d7d548b8813a6268bdb59a8d16b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:31 +0000
Subject: [PATCH 59/75] fix: asynchronous LeWI: AcquireCpus counted twice the
 reclaimed CPUs of a partially idle core

With SMT, a core with some idle and some guested owned CPUs was acquired
twice, so the request for the remaining CPUs was smaller than needed.
---
 src/LB_comm/shmem_cpuinfo.c | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/LB_comm/shmem_cpuinfo.c b/src/LB_comm/shmem_cpuinfo.c
index bbe821e..b254c4d 100644
--- a/src/LB_comm/shmem_cpuinfo.c
+++ b/src/LB_comm/shmem_cpuinfo.c
@@ -1329,6 +1329,28 @@ int shmem_cpuinfo__acquire_ncpus_from_cpu_subset(
             }
         }
 
+        /* With SMT, whole cores are acquired. If some owned CPU in the core is
+         * idle, the non-idle ones are acquired together with it, and must not
+         * be counted twice */
+        if (shdata->flags.hw_has_smt) {
+            unsigned int count = 0;
+            for (unsigned int i = 0; i < owned_non_idle.count; ++i) {
+                cpuid_t cpuid = owned_non_idle.items[i];
+                bool core_is_idle = false;
+                for (unsigned int j = 0; j < owned_idle.count; ++j) {
+                    if (shdata->node_info[owned_idle.items[j]].core_id
+                            == shdata->node_info[cpuid].core_id) {
+                        core_is_idle = true;
+                        break;
+                    }
+                }
+                if (!core_is_idle) {
+                    owned_non_idle.items[count++] = cpuid;
+                }
+            }
+            owned_non_idle.count = count;
+        }
+
         /* Acquire first owned CPUs that are IDLE */
         int local_error = acquire_cpus_in_array_cpuid_t(pid, &owned_idle, &ncpus, tasks);
         if (local_error == DLB_SUCCESS || local_error == DLB_NOTED) {
-- 
2.43.0


From 03d8b719686c0b1503901c40634b7cfa60ce24ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:43 +0000
Subject: [PATCH 60/75] fix: TALP: keep the samples of a nested parallel region
 until its workers are updated

talp_openmp_parallel_end freed the list of samples of a parallel region of
level 2 or higher, and set the pointer to NULL, before iterating it to update
the state of the workers, so that every nested parallel region with more than
one thread ended in a segmentation fault.
---
 src/LB_core/DLB_talp.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/LB_core/DLB_talp.c b/src/LB_core/DLB_talp.c
index 628b55f..efc7403 100644
--- a/src/LB_core/DLB_talp.c
+++ b/src/LB_core/DLB_talp.c
@@ -1997,9 +1997,6 @@ void talp_openmp_parallel_end(omptool_parallel_data_t *parallel_data) {
                     &parallel_samples[1],
                     parallel_data->actual_parallelism-1);
 
-            /* free local data */
-            free(parallel_data->talp_parallel_data);
-            parallel_data->talp_parallel_data = NULL;
         }
 
         /* Update current threads's state */
@@ -2015,6 +2012,12 @@ void talp_openmp_parallel_end(omptool_parallel_data_t *parallel_data) {
                 worker_sample->state = not_useful_omp_out;
             }
         }
+
+        if (parallel_data->level > 1) {
+            /* free local data */
+            free(parallel_data->talp_parallel_data);
+            parallel_data->talp_parallel_data = NULL;
+        }
     }
 }
 
-- 
2.43.0


From 9858c7ebf8f1209fc00274a36dcd65759e1604ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:59 +0000
Subject: [PATCH 61/75] fix: TALP: a region that is reset while started must
 not be left in the list of open regions

monitoring_region_reset marked the region as not started, but did not remove
it from the list of open regions. The region kept accumulating times, starting
it again inserted it twice, stopping DLB_LAST_OPEN_REGION did nothing, and
DLB_Finalize never returned since it stops regions until the list is empty.
---
 src/LB_core/DLB_talp.c | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/LB_core/DLB_talp.c b/src/LB_core/DLB_talp.c
index efc7403..1fd29cf 100644
--- a/src/LB_core/DLB_talp.c
+++ b/src/LB_core/DLB_talp.c
@@ -291,20 +291,26 @@ dlb_monitor_t* monitoring_region_register(const subprocess_descriptor_t *spd,
 }
 
 int monitoring_region_reset(const subprocess_descriptor_t *spd, dlb_monitor_t *monitor) {
+    talp_info_t *talp_info = spd->talp_info;
     if (monitor == DLB_GLOBAL_REGION) {
-        talp_info_t *talp_info = spd->talp_info;
         monitor = talp_info->monitor;
     }
 
-    /* Reset everything except these fields: */
-    *monitor = (const dlb_monitor_t) {
-        .name = monitor->name,
-        .num_resets = monitor->num_resets + 1,
-        ._data = monitor->_data,
-    };
+    pthread_mutex_lock(&talp_info->regions_mutex);
+    {
+        /* Reset everything except these fields: */
+        *monitor = (const dlb_monitor_t) {
+            .name = monitor->name,
+            .num_resets = monitor->num_resets + 1,
+            ._data = monitor->_data,
+        };
 
-    monitor_data_t *monitor_data = monitor->_data;
-    monitor_data->flags.started = false;
+        /* If the region was started, it is not anymore */
+        monitor_data_t *monitor_data = monitor->_data;
+        monitor_data->flags.started = false;
+        talp_info->open_regions = g_slist_remove(talp_info->open_regions, monitor);
+    }
+    pthread_mutex_unlock(&talp_info->regions_mutex);
 
     return DLB_SUCCESS;
 }
-- 
2.43.0


From 9ea3c053beb96d392b3990bcfe0d064b02421ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:04 +0000
Subject: [PATCH 62/75] fix: TALP: two threads registering the same region name
 must obtain the same region

The look up and the insertion were done in different critical sections, so two
threads could both insert a region with the same name. The first one of them
was then deallocated while its thread kept using it.
---
 src/LB_core/DLB_talp.c | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/LB_core/DLB_talp.c b/src/LB_core/DLB_talp.c
index 1fd29cf..5d174a4 100644
--- a/src/LB_core/DLB_talp.c
+++ b/src/LB_core/DLB_talp.c
@@ -245,15 +245,15 @@ dlb_monitor_t* monitoring_region_register(const subprocess_descriptor_t *spd,
         global_region = true;
     }
 
+    /* The lock is held until the new region is inserted, otherwise two threads
+     * registering the same name could create two different regions */
+    pthread_mutex_lock(&talp_info->regions_mutex);
+
     /* Found monitor if already registered */
     if (!anonymous_region) {
-        pthread_mutex_lock(&talp_info->regions_mutex);
-        {
-            monitor = g_tree_lookup(talp_info->regions, name);
-        }
-        pthread_mutex_unlock(&talp_info->regions_mutex);
-
+        monitor = g_tree_lookup(talp_info->regions, name);
         if (monitor != NULL) {
+            pthread_mutex_unlock(&talp_info->regions_mutex);
             return monitor;
         }
     }
@@ -281,10 +281,7 @@ dlb_monitor_t* monitoring_region_register(const subprocess_descriptor_t *spd,
             spd->id, avg_cpus, spd->options.talp_region_select, have_shmem);
 
     /* Finally, insert */
-    pthread_mutex_lock(&talp_info->regions_mutex);
-    {
-        g_tree_insert(talp_info->regions, (gpointer)monitor->name, monitor);
-    }
+    g_tree_insert(talp_info->regions, (gpointer)monitor->name, monitor);
     pthread_mutex_unlock(&talp_info->regions_mutex);
 
     return monitor;
-- 
2.43.0


From f515c6b3996f07760e4edc788bb5ba91fbbd1ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:14 +0000
Subject: [PATCH 63/75] fix: TALP: start, stop and flush of monitoring regions
 must be atomic

- The check and the update of the 'started' flag were done in different steps,
  so two threads starting (or stopping) the same region at once could insert
  it twice in the list of open regions, or count a measurement twice.
- Samples were flushed before, and separately from, updating the open regions.
  Any region that another thread stopped in between lost the flushed times.
- The sample of a thread that had not used TALP before was created after
  flushing all samples with the start time of the innermost region, which was
  then used as the time of the start or stop of the region: i.e., stopping a
  region from a new thread accounted for an elapsed time of 0.
- New samples were visible to other threads before being initialized, and the
  list of open regions was read without holding the lock.
---
 src/LB_core/DLB_talp.c | 238 ++++++++++++++++++++++++-----------------
 1 file changed, 141 insertions(+), 97 deletions(-)

diff --git a/src/LB_core/DLB_talp.c b/src/LB_core/DLB_talp.c
index 5d174a4..b36d2d5 100644
--- a/src/LB_core/DLB_talp.c
+++ b/src/LB_core/DLB_talp.c
@@ -59,7 +59,9 @@ static void talp_dealloc_samples(const subprocess_descriptor_t *spd);
 static void talp_record_monitor(const subprocess_descriptor_t *spd,
         const dlb_monitor_t *monitor);
 static void talp_aggregate_samples(const subprocess_descriptor_t *spd);
+static int64_t talp_aggregate_samples_locked(const subprocess_descriptor_t *spd);
 static talp_sample_t* talp_get_thread_sample(const subprocess_descriptor_t *spd);
+static talp_sample_t* talp_get_thread_sample_locked(const subprocess_descriptor_t *spd);
 
 #if MPI_LIB
 static MPI_Datatype mpi_int64_type;
@@ -321,27 +323,31 @@ int monitoring_region_start(const subprocess_descriptor_t *spd, dlb_monitor_t *m
         monitor = talp_info->monitor;
     }
 
-    int error;
+    int error = DLB_NOUPDT;
     monitor_data_t *monitor_data = monitor->_data;
+    talp_sample_t *thread_sample = NULL;
 
-    if (!monitor_data->flags.started && monitor_data->flags.enabled) {
-        /* Gather samples from all threads and update regions */
-        talp_aggregate_samples(spd);
-
-        verbose(VB_TALP, "Starting region %s", monitor->name);
-        instrument_event(MONITOR_REGION, monitor_data->id, EVENT_BEGIN);
+    pthread_mutex_lock(&talp_info->regions_mutex);
+    {
+        if (!monitor_data->flags.started && monitor_data->flags.enabled) {
+            /* The sample needs to exist before being gathered with the rest */
+            thread_sample = talp_get_thread_sample_locked(spd);
 
-        /* Thread sample was just updated, use timestamp as starting time */
-        talp_sample_t *thread_sample = talp_get_thread_sample(spd);
-        monitor->start_time = thread_sample->last_updated_timestamp;
-        monitor->stop_time = 0;
+            /* Gather samples from all threads and update regions,
+             * use the same timestamp as starting time */
+            monitor->start_time = talp_aggregate_samples_locked(spd);
+            monitor->stop_time = 0;
 
-        pthread_mutex_lock(&talp_info->regions_mutex);
-        {
             monitor_data->flags.started = true;
             talp_info->open_regions = g_slist_prepend(talp_info->open_regions, monitor);
+            error = DLB_SUCCESS;
         }
-        pthread_mutex_unlock(&talp_info->regions_mutex);
+    }
+    pthread_mutex_unlock(&talp_info->regions_mutex);
+
+    if (error == DLB_SUCCESS) {
+        verbose(VB_TALP, "Starting region %s", monitor->name);
+        instrument_event(MONITOR_REGION, monitor_data->id, EVENT_BEGIN);
 
         /* Normally, the sample state will be 'useful' at this point, but on
          * certain cases where neither talp_mpi_init nor talp_openmp_init have
@@ -349,10 +355,6 @@ int monitoring_region_start(const subprocess_descriptor_t *spd, dlb_monitor_t *m
         if (thread_sample->state != useful) {
             set_sample_state(thread_sample, useful, talp_info->flags.papi);
         }
-
-        error = DLB_SUCCESS;
-    } else {
-        error = DLB_NOUPDT;
     }
 
     return error;
@@ -363,41 +365,45 @@ int monitoring_region_stop(const subprocess_descriptor_t *spd, dlb_monitor_t *mo
     if (unlikely(thread_is_observer)) return DLB_ERR_PERM;
 
     talp_info_t *talp_info = spd->talp_info;
-    if (monitor == DLB_GLOBAL_REGION) {
-        monitor = talp_info->monitor;
-    } else if (monitor == DLB_LAST_OPEN_REGION) {
-        if (talp_info->open_regions != NULL) {
-            monitor = talp_info->open_regions->data;
-        } else {
-            return DLB_ERR_NOENT;
+    int error = DLB_NOUPDT;
+    monitor_data_t *monitor_data = NULL;
+
+    pthread_mutex_lock(&talp_info->regions_mutex);
+    {
+        if (monitor == DLB_GLOBAL_REGION) {
+            monitor = talp_info->monitor;
+        } else if (monitor == DLB_LAST_OPEN_REGION) {
+            if (talp_info->open_regions != NULL) {
+                monitor = talp_info->open_regions->data;
+            } else {
+                monitor = NULL;
+                error = DLB_ERR_NOENT;
+            }
         }
-    }
 
-    int error;
-    monitor_data_t *monitor_data = monitor->_data;
+        if (monitor != NULL) {
+            monitor_data = monitor->_data;
+        }
 
-    if (monitor_data->flags.started) {
-        /* Gather samples from all threads and update regions */
-        talp_aggregate_samples(spd);
+        if (monitor_data != NULL && monitor_data->flags.started) {
+            /* The sample needs to exist before being gathered with the rest */
+            talp_get_thread_sample_locked(spd);
 
-        /* Stop timer */
-        talp_sample_t *thread_sample = talp_get_thread_sample(spd);
-        monitor->stop_time = thread_sample->last_updated_timestamp;
-        monitor->elapsed_time += monitor->stop_time - monitor->start_time;
-        ++(monitor->num_measurements);
+            /* Gather samples from all threads and update regions, and stop timer */
+            monitor->stop_time = talp_aggregate_samples_locked(spd);
+            monitor->elapsed_time += monitor->stop_time - monitor->start_time;
+            ++(monitor->num_measurements);
 
-        pthread_mutex_lock(&talp_info->regions_mutex);
-        {
             monitor_data->flags.started = false;
             talp_info->open_regions = g_slist_remove(talp_info->open_regions, monitor);
+            error = DLB_SUCCESS;
         }
-        pthread_mutex_unlock(&talp_info->regions_mutex);
+    }
+    pthread_mutex_unlock(&talp_info->regions_mutex);
 
+    if (error == DLB_SUCCESS) {
         verbose(VB_TALP, "Stopping region %s", monitor->name);
         instrument_event(MONITOR_REGION, monitor_data->id, EVENT_END);
-        error = DLB_SUCCESS;
-    } else {
-        error = DLB_NOUPDT;
     }
 
     return error;
@@ -439,48 +445,45 @@ int monitoring_regions_force_update(const subprocess_descriptor_t *spd) {
     return DLB_SUCCESS;
 }
 
-/* Update all monitoring regions with the macrosample */
+/* Update all monitoring regions with the macrosample
+ * WARNING: the caller must hold regions_mutex */
 static void monitoring_regions_update_all(const subprocess_descriptor_t *spd,
         const talp_macrosample_t *macrosample, int num_cpus) {
     talp_info_t *talp_info = spd->talp_info;
 
     /* Update all open regions */
-    pthread_mutex_lock(&talp_info->regions_mutex);
-    {
-        for (GSList *node = talp_info->open_regions;
-                node != NULL;
-                node = node->next) {
-            dlb_monitor_t *monitor = node->data;
-            monitor_data_t *monitor_data = monitor->_data;
+    for (GSList *node = talp_info->open_regions;
+            node != NULL;
+            node = node->next) {
+        dlb_monitor_t *monitor = node->data;
+        monitor_data_t *monitor_data = monitor->_data;
 
-            /* Update number of CPUs if needed */
-            monitor->num_cpus = max_int(monitor->num_cpus, num_cpus);
+        /* Update number of CPUs if needed */
+        monitor->num_cpus = max_int(monitor->num_cpus, num_cpus);
 
-            /* Timers */
-            monitor->useful_time += macrosample->timers.useful;
-            monitor->mpi_time += macrosample->timers.not_useful_mpi;
-            monitor->omp_load_imbalance_time += macrosample->timers.not_useful_omp_in_lb;
-            monitor->omp_scheduling_time += macrosample->timers.not_useful_omp_in_sched;
-            monitor->omp_serialization_time += macrosample->timers.not_useful_omp_out;
+        /* Timers */
+        monitor->useful_time += macrosample->timers.useful;
+        monitor->mpi_time += macrosample->timers.not_useful_mpi;
+        monitor->omp_load_imbalance_time += macrosample->timers.not_useful_omp_in_lb;
+        monitor->omp_scheduling_time += macrosample->timers.not_useful_omp_in_sched;
+        monitor->omp_serialization_time += macrosample->timers.not_useful_omp_out;
 #ifdef PAPI_LIB
-            /* Counters */
-            monitor->cycles += macrosample->counters.cycles;
-            monitor->instructions += macrosample->counters.instructions;
+        /* Counters */
+        monitor->cycles += macrosample->counters.cycles;
+        monitor->instructions += macrosample->counters.instructions;
 #endif
-            /* Stats */
-            monitor->num_mpi_calls += macrosample->stats.num_mpi_calls;
-            monitor->num_omp_parallels += macrosample->stats.num_omp_parallels;
-            monitor->num_omp_tasks += macrosample->stats.num_omp_tasks;
-
-            /* Update shared memory only if requested */
-            if (talp_info->flags.external_profiler) {
-                shmem_talp__set_times(monitor_data->node_shared_id,
-                        monitor->mpi_time,
-                        monitor->useful_time);
-            }
+        /* Stats */
+        monitor->num_mpi_calls += macrosample->stats.num_mpi_calls;
+        monitor->num_omp_parallels += macrosample->stats.num_omp_parallels;
+        monitor->num_omp_tasks += macrosample->stats.num_omp_tasks;
+
+        /* Update shared memory only if requested */
+        if (talp_info->flags.external_profiler) {
+            shmem_talp__set_times(monitor_data->node_shared_id,
+                    monitor->mpi_time,
+                    monitor->useful_time);
         }
     }
-    pthread_mutex_unlock(&talp_info->regions_mutex);
 }
 
 /* Update all open nested regions (so, excluding the innermost) and add the
@@ -740,19 +743,38 @@ static inline void set_sample_state(talp_sample_t *sample, enum talp_sample_stat
             EVENT_BEGIN);
 }
 
-/* Get the TLS associated sample */
-static talp_sample_t* talp_get_thread_sample(const subprocess_descriptor_t *spd) {
+/* Get the TLS associated sample, if allocated */
+static inline talp_sample_t* talp_find_thread_sample(void) {
+    return _tls_sample != NULL && _tls_sample_epoch == DLB_ATOMIC_LD_RLX(&talp_epoch)
+        ? _tls_sample : NULL;
+}
+
+/* Get the TLS associated sample
+ * WARNING: the caller must hold regions_mutex */
+static talp_sample_t* talp_get_thread_sample_locked(const subprocess_descriptor_t *spd) {
     /* Thread already has an allocated sample, return it */
-    unsigned int epoch = DLB_ATOMIC_LD_RLX(&talp_epoch);
-    if (likely(_tls_sample != NULL && _tls_sample_epoch == epoch)) return _tls_sample;
+    talp_sample_t *thread_sample = talp_find_thread_sample();
+    if (likely(thread_sample != NULL)) return thread_sample;
 
     /* Observer threads don't have a valid sample */
     if (unlikely(thread_is_observer)) return NULL;
 
-    /* Otherwise, allocate */
-    _tls_sample = NULL;
-    _tls_sample_epoch = epoch;
     talp_info_t *talp_info = spd->talp_info;
+
+    /* If a thread is created mid-region, its initial time is that of the
+     * innermost open region, otherwise it is the current time */
+    int64_t last_updated_timestamp;
+    if (talp_info->open_regions) {
+        const dlb_monitor_t *monitor = talp_info->open_regions->data;
+        last_updated_timestamp = monitor->start_time;
+    } else {
+        last_updated_timestamp = get_time_in_ns();
+    }
+
+    /* Otherwise, allocate. The sample must be initialized before other threads
+     * can find it in the list. */
+    _tls_sample = NULL;
+    _tls_sample_epoch = DLB_ATOMIC_LD_RLX(&talp_epoch);
     pthread_mutex_lock(&talp_info->samples_mutex);
     {
         int ncpus = ++talp_info->ncpus;
@@ -762,6 +784,9 @@ static talp_sample_t* talp_get_thread_sample(const subprocess_descriptor_t *spd)
             void *new_sample;
             if (posix_memalign(&new_sample, DLB_CACHE_LINE, sizeof(talp_sample_t)) == 0) {
                 _tls_sample = new_sample;
+                *_tls_sample = (const talp_sample_t) {
+                    .last_updated_timestamp = last_updated_timestamp,
+                };
                 talp_info->samples[ncpus-1] = new_sample;
             }
         }
@@ -770,20 +795,6 @@ static talp_sample_t* talp_get_thread_sample(const subprocess_descriptor_t *spd)
 
     fatal_cond(_tls_sample == NULL, "TALP: could not allocate thread sample");
 
-    /* If a thread is created mid-region, its initial time is that of the
-     * innermost open region, otherwise it is the current time */
-    int64_t last_updated_timestamp;
-    if (talp_info->open_regions) {
-        const dlb_monitor_t *monitor = talp_info->open_regions->data;
-        last_updated_timestamp = monitor->start_time;
-    } else {
-        last_updated_timestamp = get_time_in_ns();
-    }
-
-    *_tls_sample = (const talp_sample_t) {
-        .last_updated_timestamp = last_updated_timestamp,
-    };
-
     set_sample_state(_tls_sample, disabled, talp_info->flags.papi);
 
 #ifdef INSTRUMENTATION_VERSION
@@ -795,6 +806,21 @@ static talp_sample_t* talp_get_thread_sample(const subprocess_descriptor_t *spd)
     return _tls_sample;
 }
 
+/* Get the TLS associated sample */
+static talp_sample_t* talp_get_thread_sample(const subprocess_descriptor_t *spd) {
+    talp_sample_t *thread_sample = talp_find_thread_sample();
+    if (likely(thread_sample != NULL)) return thread_sample;
+
+    talp_info_t *talp_info = spd->talp_info;
+    pthread_mutex_lock(&talp_info->regions_mutex);
+    {
+        thread_sample = talp_get_thread_sample_locked(spd);
+    }
+    pthread_mutex_unlock(&talp_info->regions_mutex);
+
+    return thread_sample;
+}
+
 static void talp_dealloc_samples(const subprocess_descriptor_t *spd) {
     /* This only nullifies the current thread pointer, but this function is
      * only really important when TALP is finalized and then initialized again
@@ -916,10 +942,14 @@ static inline void talp_aggregate_sample(talp_sample_t *sample,
         DLB_ATOMIC_EXCH_RLX(&sample->stats.num_omp_tasks, 0);
 }
 
-/* Accumulate values from samples of all threads and update regions */
-static void talp_aggregate_samples(const subprocess_descriptor_t *spd) {
+/* Accumulate values from samples of all threads and update regions.
+ * Return the timestamp until which the samples have been accumulated.
+ * WARNING: the caller must hold regions_mutex, so that the samples are
+ * accumulated into the regions that were open when they were flushed */
+static int64_t talp_aggregate_samples_locked(const subprocess_descriptor_t *spd) {
 
     int num_cpus;
+    int64_t timestamp;
     talp_info_t *talp_info = spd->talp_info;
 
     /* Accumulate samples from all threads */
@@ -929,7 +959,7 @@ static void talp_aggregate_samples(const subprocess_descriptor_t *spd) {
         num_cpus = talp_info->ncpus;
 
         /* Force-update and aggregate all samples */
-        int64_t timestamp = get_time_in_ns();
+        timestamp = get_time_in_ns();
         for (int i = 0; i < num_cpus; ++i) {
             talp_update_sample(talp_info->samples[i], talp_info->flags.papi, timestamp);
             talp_aggregate_sample(talp_info->samples[i], &macrosample);
@@ -939,6 +969,18 @@ static void talp_aggregate_samples(const subprocess_descriptor_t *spd) {
 
     /* Update all started regions */
     monitoring_regions_update_all(spd, &macrosample, num_cpus);
+
+    return timestamp;
+}
+
+/* Accumulate values from samples of all threads and update regions */
+static void talp_aggregate_samples(const subprocess_descriptor_t *spd) {
+    talp_info_t *talp_info = spd->talp_info;
+    pthread_mutex_lock(&talp_info->regions_mutex);
+    {
+        talp_aggregate_samples_locked(spd);
+    }
+    pthread_mutex_unlock(&talp_info->regions_mutex);
 }
 
 /* Accumulate samples from only a subset of samples of a parallel region.
@@ -948,6 +990,7 @@ static void talp_aggregate_samples_parallel(const subprocess_descriptor_t *spd,
 
     talp_info_t *talp_info = spd->talp_info;
     talp_macrosample_t macrosample = (const talp_macrosample_t) {};
+    pthread_mutex_lock(&talp_info->regions_mutex);
     pthread_mutex_lock(&talp_info->samples_mutex);
     {
         /* Iterate first to force-update all samples and compute the minimum
@@ -978,6 +1021,7 @@ static void talp_aggregate_samples_parallel(const subprocess_descriptor_t *spd,
 
     /* Update all started regions */
     monitoring_regions_update_all(spd, &macrosample, nelems);
+    pthread_mutex_unlock(&talp_info->regions_mutex);
 }
 
 
-- 
2.43.0


From f4ac7c81438adcf50aa165c738f5819e855a062f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:14 +0000
Subject: [PATCH 64/75] fix: TALP: the time of a sample must not be accounted
 twice when two threads update it

A sample may be updated by its own thread and by other thread that flushes all
samples. Both could read the same last_updated_timestamp and then account for
the time since then, or account for a negative time if the flush obtained its
timestamp before the last update. Update the sample while holding its own mutex
so that every interval is only accounted for once.
---
 src/LB_core/DLB_talp.c   | 14 ++++++++++++--
 src/LB_core/talp_types.h |  1 +
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/LB_core/DLB_talp.c b/src/LB_core/DLB_talp.c
index b36d2d5..3038006 100644
--- a/src/LB_core/DLB_talp.c
+++ b/src/LB_core/DLB_talp.c
@@ -786,6 +786,7 @@ static talp_sample_t* talp_get_thread_sample_locked(const subprocess_descriptor_
                 _tls_sample = new_sample;
                 *_tls_sample = (const talp_sample_t) {
                     .last_updated_timestamp = last_updated_timestamp,
+                    .mutex = PTHREAD_MUTEX_INITIALIZER,
                 };
                 talp_info->samples[ncpus-1] = new_sample;
             }
@@ -852,8 +853,16 @@ static void talp_update_sample(talp_sample_t *sample, bool papi, int64_t timesta
 
     /* Compute duration and set new last_updated_timestamp */
     int64_t now = timestamp == NO_TIMESTAMP ? get_time_in_ns() : timestamp;
-    int64_t microsample_duration = now - sample->last_updated_timestamp;
-    sample->last_updated_timestamp = now;
+    int64_t microsample_duration = 0;
+
+    /* The sample may be updated by its own thread and, at the same time, by other
+     * thread that is flushing it. Each interval must be accounted for only once,
+     * and before the values are flushed. */
+    pthread_mutex_lock(&sample->mutex);
+    if (likely(now > sample->last_updated_timestamp)) {
+        microsample_duration = now - sample->last_updated_timestamp;
+        sample->last_updated_timestamp = now;
+    }
 
     /* Update the appropriate sample timer */
     switch(sample->state) {
@@ -872,6 +881,7 @@ static void talp_update_sample(talp_sample_t *sample, bool papi, int64_t timesta
             DLB_ATOMIC_ADD_RLX(&sample->timers.not_useful_omp_out, microsample_duration);
             break;
     }
+    pthread_mutex_unlock(&sample->mutex);
 
 #ifdef PAPI_LIB
     if (papi) {
diff --git a/src/LB_core/talp_types.h b/src/LB_core/talp_types.h
index e633c18..b002650 100644
--- a/src/LB_core/talp_types.h
+++ b/src/LB_core/talp_types.h
@@ -55,6 +55,7 @@ typedef struct DLB_ALIGN_CACHE talp_sample_t {
         atomic_int_least64_t num_omp_parallels;
         atomic_int_least64_t num_omp_tasks;
     } stats;
+    pthread_mutex_t mutex;      /* to update the timers */
     int64_t last_updated_timestamp;
     enum talp_sample_state {
         disabled,
-- 
2.43.0


From 14fc1e7f41b323969991578a68f0b3f4c13d705e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:58 +0000
Subject: [PATCH 65/75] fix: TALP: an anonymous region must not replace a
 region registered with the same name

---
 src/LB_core/DLB_talp.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/LB_core/DLB_talp.c b/src/LB_core/DLB_talp.c
index 3038006..21c5079 100644
--- a/src/LB_core/DLB_talp.c
+++ b/src/LB_core/DLB_talp.c
@@ -271,8 +271,11 @@ dlb_monitor_t* monitoring_region_register(const subprocess_descriptor_t *spd,
     /* Construct name if anonymous region */
     char monitor_name[DLB_MONITOR_NAME_MAX];
     if (anonymous_region) {
-        snprintf(monitor_name, DLB_MONITOR_NAME_MAX, "Anonymous Region %d",
-                get_new_anonymous_id());
+        /* The generated name must not be that of a region already registered */
+        do {
+            snprintf(monitor_name, DLB_MONITOR_NAME_MAX, "Anonymous Region %d",
+                    get_new_anonymous_id());
+        } while (g_tree_lookup(talp_info->regions, monitor_name) != NULL);
         name = monitor_name;
     }
 
-- 
2.43.0


From df51c3de4591b014800c781c5b02472e0a0f5dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:15 +0000
Subject: [PATCH 66/75] fix: GetPidList must not write in a list of zero
 elements

---
 src/LB_comm/shmem_procinfo.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/LB_comm/shmem_procinfo.c b/src/LB_comm/shmem_procinfo.c
index 2545077..e85bb24 100644
--- a/src/LB_comm/shmem_procinfo.c
+++ b/src/LB_comm/shmem_procinfo.c
@@ -1009,14 +1009,11 @@ int shmem_procinfo__getpidlist(pid_t *pidlist, int *nelems, int max_len) {
     shmem_lock(shm_handler);
     {
         int p;
-        for (p = 0; p < max_processes; p++) {
+        for (p = 0; p < max_processes && *nelems < max_len; p++) {
             pid_t pid = shdata->process_info[p].pid;
             if (pid != NOBODY) {
                 pidlist[(*nelems)++] = pid;
             }
-            if (*nelems == max_len) {
-                break;
-            }
         }
     }
     shmem_unlock(shm_handler);
-- 
2.43.0


From 10fbd67905fcfaf4770f35f8891e11914ad5efa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:15 +0000
Subject: [PATCH 67/75] fix: TALP: resetting a region must also reset the times
 seen by external profilers

---
 src/LB_core/DLB_talp.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/LB_core/DLB_talp.c b/src/LB_core/DLB_talp.c
index 21c5079..4a42ee1 100644
--- a/src/LB_core/DLB_talp.c
+++ b/src/LB_core/DLB_talp.c
@@ -311,6 +311,11 @@ int monitoring_region_reset(const subprocess_descriptor_t *spd, dlb_monitor_t *m
         monitor_data_t *monitor_data = monitor->_data;
         monitor_data->flags.started = false;
         talp_info->open_regions = g_slist_remove(talp_info->open_regions, monitor);
+
+        /* Update shared memory only if requested */
+        if (talp_info->flags.external_profiler) {
+            shmem_talp__set_times(monitor_data->node_shared_id, 0, 0);
+        }
     }
     pthread_mutex_unlock(&talp_info->regions_mutex);
 
-- 
2.43.0


From ea2dfb5ae260ff19ec6b8cdf4c09460472ba3a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:15 +0000
Subject: [PATCH 68/75] fix: TALP: reuse the shared memory of the regions of
 finalized processes

---
 src/LB_comm/shmem_talp.c | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/LB_comm/shmem_talp.c b/src/LB_comm/shmem_talp.c
index 38d88bc..a8de02e 100644
--- a/src/LB_comm/shmem_talp.c
+++ b/src/LB_comm/shmem_talp.c
@@ -234,9 +234,10 @@ int shmem_talp__register(pid_t pid, float avg_cpus, const char *name, int *node_
     int error;
     shmem_lock(shm_handler);
     {
-        /* Regions cannot be removed from shmem_talp.
-         * Search is linear, and append if not found. */
+        /* Search is linear. If not found, reuse the spot of a region that was
+         * removed because its process finalized, or append. */
         int region_id;
+        int empty_id = -1;
         int num_regions = shdata->num_regions;
         for (region_id = 0; region_id < num_regions; ++region_id) {
             talp_region_t *talp_region = &shdata->talp_region[region_id];
@@ -245,6 +246,9 @@ int shmem_talp__register(pid_t pid, float avg_cpus, const char *name, int *node_
                 /* Region was already registered */
                 break;
             }
+            if (empty_id == -1 && talp_region->pid == NOBODY) {
+                empty_id = region_id;
+            }
         }
 
         if (region_id < num_regions) {
@@ -252,9 +256,14 @@ int shmem_talp__register(pid_t pid, float avg_cpus, const char *name, int *node_
             *node_shared_id = region_id;
             error = DLB_NOUPDT;
         } else {
-            if (num_regions < max_regions) {
-                /* Register new region (region_id points to empty spot) */
-                ++shdata->num_regions;
+            if (empty_id != -1 || num_regions < max_regions) {
+                /* Register new region */
+                if (empty_id != -1) {
+                    region_id = empty_id;
+                } else {
+                    /* region_id points to the spot after the last one */
+                    ++shdata->num_regions;
+                }
                 talp_region_t *empty_spot = &shdata->talp_region[region_id];
                 *empty_spot = (const talp_region_t) {.pid = pid, .avg_cpus = avg_cpus};
                 snprintf(empty_spot->name, DLB_MONITOR_NAME_MAX, "%s", name);
-- 
2.43.0


From 3ccc0dded5023ab0ada53d838d36182fa3e8b551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:49 +0000
Subject: [PATCH 69/75] fix: TALP: collected node metrics must include the
 metrics of all processes

---
 src/LB_core/DLB_talp.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/LB_core/DLB_talp.c b/src/LB_core/DLB_talp.c
index 4a42ee1..55884fa 100644
--- a/src/LB_core/DLB_talp.c
+++ b/src/LB_core/DLB_talp.c
@@ -2321,8 +2321,12 @@ int talp_collect_pop_node_metrics(const subprocess_descriptor_t *spd,
     bool resume_region = monitoring_region_stop(spd, monitor) == DLB_SUCCESS;
 
     /* This functionality needs a shared memory, create a temporary one if needed */
+    bool temporary_shmem = !talp_info->flags.have_shmem
+        && !talp_info->flags.have_minimal_shmem;
+    if (temporary_shmem) {
+        shmem_talp__init(spd->options.shm_key, spd->options.shm_size_multiplier);
+    }
     if (!talp_info->flags.have_shmem) {
-        shmem_talp__init(spd->options.shm_key, 1);
         shmem_talp__register(spd->id, monitor->avg_cpus, monitor->name,
                 &monitor_data->node_shared_id);
     }
@@ -2338,8 +2342,12 @@ int talp_collect_pop_node_metrics(const subprocess_descriptor_t *spd,
     /* Compute node metrics for that region name */
     talp_query_pop_node_metrics(monitor->name, node_metrics);
 
+    /* Perform another node barrier so that no process removes, or updates, its
+     * metrics until everyone has read them */
+    node_barrier(spd, NULL);
+
     /* Remove shared memory if it was a temporary one */
-    if (!talp_info->flags.have_shmem) {
+    if (temporary_shmem) {
         shmem_talp__finalize(spd->id);
     }
 
-- 
2.43.0


From 108c26fce0297a0d114211a4b48b5009564a00c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:47 +0000
Subject: [PATCH 70/75] fix: TALP: DLB_TALP_GetTimes of the own process crashed
 if the thread had not called DLB before

---
 src/apis/DLB_interface_talp.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/apis/DLB_interface_talp.c b/src/apis/DLB_interface_talp.c
index d0c89f7..df2e23a 100644
--- a/src/apis/DLB_interface_talp.c
+++ b/src/apis/DLB_interface_talp.c
@@ -81,6 +81,7 @@ int DLB_TALP_GetTimes(int pid, double *mpi_time, double *useful_time) {
 
     int error;
 
+    spd_enter_dlb(thread_spd);
     if (pid == 0 || (thread_spd && thread_spd->id == pid)) {
         /* Same process */
         const dlb_monitor_t *monitor = monitoring_region_get_global_region(thread_spd);
-- 
2.43.0


From 60b3436c5b63f5348c5b747b0a323e71280d1d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:25 +0000
Subject: [PATCH 71/75] fix: shared memories of different keys, colors or
 modules must not have the same name

The key "1_k" and the key "k" with color 1, or the key "async_k" of the module lewi
and the key "k" of the module lewi_async, shared the same file.
---
 src/LB_comm/shmem.c            | 6 ++++--
 src/LB_comm/shmem_lewi_async.c | 2 +-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/LB_comm/shmem.c b/src/LB_comm/shmem.c
index 967aa72..c413c68 100644
--- a/src/LB_comm/shmem.c
+++ b/src/LB_comm/shmem.c
@@ -107,6 +107,8 @@ static void shmem_consistency_check_version(unsigned int creator_version,
     }
 }
 
+/* The color is preceded by a character that separates it from the key, so that
+ * different keys and colors cannot build the same name */
 static void get_shmem_filename(char *filename, const char *shmem_module,
         const char *shmem_key, int shmem_color) {
     if (shmem_key && shmem_key[0] != '\0') {
@@ -114,7 +116,7 @@ static void get_shmem_filename(char *filename, const char *shmem_module,
             snprintf(filename, SHM_NAME_LENGTH, "/DLB_%s_%s",
                     shmem_module, shmem_key);
         } else {
-            snprintf(filename, SHM_NAME_LENGTH, "/DLB_%s_%d_%s",
+            snprintf(filename, SHM_NAME_LENGTH, "/DLB_%s.%d_%s",
                     shmem_module, shmem_color, shmem_key);
         }
     } else {
@@ -122,7 +124,7 @@ static void get_shmem_filename(char *filename, const char *shmem_module,
             snprintf(filename, SHM_NAME_LENGTH, "/DLB_%s_%d",
                     shmem_module, getuid());
         } else {
-            snprintf(filename, SHM_NAME_LENGTH, "/DLB_%s_%d_%d",
+            snprintf(filename, SHM_NAME_LENGTH, "/DLB_%s.%d_%d",
                     shmem_module, shmem_color, getuid());
         }
     }
diff --git a/src/LB_comm/shmem_lewi_async.c b/src/LB_comm/shmem_lewi_async.c
index 4fa7735..46e5336 100644
--- a/src/LB_comm/shmem_lewi_async.c
+++ b/src/LB_comm/shmem_lewi_async.c
@@ -51,7 +51,7 @@ enum { SHMEM_LEWI_ASYNC_VERSION = 2 };
 
 static lewi_async_shdata_t *shdata = NULL;
 static shmem_handler_t *shm_handler = NULL;
-static const char *shmem_name = "lewi_async";
+static const char *shmem_name = "lewiasync";
 static pthread_mutex_t mutex = PTHREAD_MUTEX_INITIALIZER;
 static int subprocesses_attached = 0;
 static int max_processes;
-- 
2.43.0


From 84908e5d51be5ac31013bc60322aa943e4b07813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:25 +0000
Subject: [PATCH 72/75] fix: shared memory names were truncated, processes with
 different long keys could share them

---
 src/LB_comm/shmem.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LB_comm/shmem.h b/src/LB_comm/shmem.h
index 745479b..7204a64 100644
--- a/src/LB_comm/shmem.h
+++ b/src/LB_comm/shmem.h
@@ -44,7 +44,7 @@ typedef struct {
 
 enum { SHMEM_SYNC_VERSION = 3 };
 
-enum { SHM_NAME_LENGTH = 64 };
+enum { SHM_NAME_LENGTH = 128 };     // prefix, module name, color and key
 
 typedef struct {
     size_t          shm_size;
-- 
2.43.0


From ef13d07c270e8919930a1e3b8faa85988ce47184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:52:24 +0000
Subject: [PATCH 73/75] fix: LeWI kept using the initial mask after a DROM mask
 change

The mask of the process was not updated when a new mask was delivered, so
DLB_Reclaim and leaving a blocking call considered the CPUs the process had
at DLB_Init: it could not reclaim CPUs it now owns.
---
 src/LB_core/DLB_kernel.c | 7 +++++--
 src/LB_core/DLB_kernel.h | 4 ++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/LB_core/DLB_kernel.c b/src/LB_core/DLB_kernel.c
index c14027a..c818f5b 100644
--- a/src/LB_core/DLB_kernel.c
+++ b/src/LB_core/DLB_kernel.c
@@ -726,7 +726,7 @@ int return_cpu_mask(const subprocess_descriptor_t *spd, const cpu_set_t *mask) {
 
 /* Drom Responsive */
 
-int poll_drom(const subprocess_descriptor_t *spd, int *new_cpus, cpu_set_t *new_mask) {
+int poll_drom(subprocess_descriptor_t *spd, int *new_cpus, cpu_set_t *new_mask) {
     int error;
     if (!spd->options.drom) {
         error = DLB_ERR_NOCOMP;
@@ -745,13 +745,14 @@ int poll_drom(const subprocess_descriptor_t *spd, int *new_cpus, cpu_set_t *new_
                 /* Otherwise, udate owner and guest data */
                 shmem_cpuinfo__update_ownership(spd->id, mask, NULL);
             }
+            memcpy(&spd->process_mask, mask, sizeof(cpu_set_t));
         }
         instrument_event(RUNTIME_EVENT, EVENT_POLLDROM, EVENT_END);
     }
     return error;
 }
 
-int poll_drom_update(const subprocess_descriptor_t *spd) {
+int poll_drom_update(subprocess_descriptor_t *spd) {
     cpu_set_t new_mask;
     int error = poll_drom(spd, NULL, &new_mask);
     if (error == DLB_SUCCESS) {
@@ -771,6 +772,7 @@ int drom_getprocessmask(int pid, dlb_cpu_set_t mask, dlb_drom_flags_t flags) {
             /* Otherwise, udate owner and guest data */
             shmem_cpuinfo__update_ownership(thread_spd->id, mask, NULL);
         }
+        memcpy(&thread_spd->process_mask, mask, sizeof(cpu_set_t));
     }
     return error;
 }
@@ -790,6 +792,7 @@ int drom_setprocessmask(int pid, const_dlb_cpu_set_t mask, dlb_drom_flags_t flag
             /* Otherwise, udate owner and guest data */
             shmem_cpuinfo__update_ownership(thread_spd->id, mask, NULL);
         }
+        memcpy(&thread_spd->process_mask, mask, sizeof(cpu_set_t));
         set_process_mask(&thread_spd->pm, mask);
     }
     if (error == DLB_SUCCESS && (flags & DLB_FREE_CPUS_SLURM)) {
diff --git a/src/LB_core/DLB_kernel.h b/src/LB_core/DLB_kernel.h
index 5284ff0..54a5e45 100644
--- a/src/LB_core/DLB_kernel.h
+++ b/src/LB_core/DLB_kernel.h
@@ -82,8 +82,8 @@ int return_cpu(const subprocess_descriptor_t *spd, int cpuid);
 int return_cpu_mask(const subprocess_descriptor_t *spd, const cpu_set_t *mask);
 
 /* DROM Responsive */
-int poll_drom(const subprocess_descriptor_t *spd, int *new_cpus, cpu_set_t *new_mask);
-int poll_drom_update(const subprocess_descriptor_t *spd);
+int poll_drom(subprocess_descriptor_t *spd, int *new_cpus, cpu_set_t *new_mask);
+int poll_drom_update(subprocess_descriptor_t *spd);
 int drom_getprocessmask(int pid, dlb_cpu_set_t mask, dlb_drom_flags_t flags);
 int drom_setprocessmask(int pid, const_dlb_cpu_set_t mask, dlb_drom_flags_t flags);
 
-- 
2.43.0


From 97839594c957038342b614d9259f5c8a260bc235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:52:24 +0000
Subject: [PATCH 74/75] fix: CPUs lost while in a blocking call were not
 notified if the new mask was not polled yet

When leaving a blocking call, CPUs whose ownership was lost meanwhile were
neither acquired nor annotated as lost, so the process kept using them.
---
 src/LB_comm/shmem_cpuinfo.c | 12 ++++++++++++
 src/LB_comm/shmem_cpuinfo.h |  1 +
 src/LB_policies/lewi_mask.c | 13 ++++++++++++-
 3 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/LB_comm/shmem_cpuinfo.c b/src/LB_comm/shmem_cpuinfo.c
index b254c4d..1116b75 100644
--- a/src/LB_comm/shmem_cpuinfo.c
+++ b/src/LB_comm/shmem_cpuinfo.c
@@ -2243,6 +2243,18 @@ bool shmem_cpuinfo__is_guest(pid_t pid, cpuid_t cpuid) {
     return is_guest;
 }
 
+bool shmem_cpuinfo__is_owner(pid_t pid, cpuid_t cpuid) {
+    if (shm_handler == NULL || cpuid < 0 || cpuid >= node_size) return false;
+
+    bool is_owner;
+    shmem_lock(shm_handler);
+    {
+        is_owner = shdata->node_info[cpuid].owner == pid;
+    }
+    shmem_unlock(shm_handler);
+    return is_owner;
+}
+
 bool shmem_cpuinfo__exists(void) {
     return shm_handler != NULL;
 }
diff --git a/src/LB_comm/shmem_cpuinfo.h b/src/LB_comm/shmem_cpuinfo.h
index a79ac07..e49e21d 100644
--- a/src/LB_comm/shmem_cpuinfo.h
+++ b/src/LB_comm/shmem_cpuinfo.h
@@ -110,6 +110,7 @@ int shmem_cpuinfo__check_cpu_availability(pid_t pid, int cpu);
 
 /* Return whether the process is currently the guest of the CPU */
 bool shmem_cpuinfo__is_guest(pid_t pid, cpuid_t cpuid);
+bool shmem_cpuinfo__is_owner(pid_t pid, cpuid_t cpuid);
 bool shmem_cpuinfo__exists(void);
 void shmem_cpuinfo__enable_request_queues(void);
 void shmem_cpuinfo__remove_requests(pid_t pid);
diff --git a/src/LB_policies/lewi_mask.c b/src/LB_policies/lewi_mask.c
index 7f81dc8..7381f4c 100644
--- a/src/LB_policies/lewi_mask.c
+++ b/src/LB_policies/lewi_mask.c
@@ -492,12 +492,23 @@ int lewi_mask_OutOfBlockingCall(const subprocess_descriptor_t *spd) {
                 /* Polling: clear tasks */
                 array_cpuinfo_task_t_clear(tasks);
             }
+
+            /* The ownership of some CPU may have been lost while in the blocking
+             * call, even if the new mask is still not polled: that CPU was not
+             * acquired, handle it as non-owned */
+            for (int cpuid = mu_get_first_cpu(&owned_cpus);
+                    cpuid >= 0;
+                    cpuid = mu_get_next_cpu(&owned_cpus, cpuid)) {
+                if (!shmem_cpuinfo__is_owner(spd->id, cpuid)) {
+                    CPU_CLR(cpuid, &owned_cpus);
+                }
+            }
         }
 
         /* If there are ONLY non-owned CPUs to reclaim:
          * (if some owned CPU was already reclaimed, we forget about non-owned) */
         cpu_set_t non_owned_cpus;
-        mu_substract(&non_owned_cpus, &cpu_set, &spd->process_mask);
+        mu_substract(&non_owned_cpus, &cpu_set, &owned_cpus);
         if (mu_count(&non_owned_cpus) > 0) {
 
             if (mu_count(&owned_cpus) == 0) {
-- 
2.43.0


From b8db6c0c4e91da8460bde0fffdbb830643573503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:12 +0000
Subject: [PATCH 75/75] fix: AcquireCpus did not regain own lent CPUs if other
 owned CPU was lost

The search for owned CPUs not in use stopped at the first CPU of the
priority array with other owner, also if it was lost to other process by a
DROM mask change that is still not polled.
---
 src/LB_comm/shmem_cpuinfo.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/LB_comm/shmem_cpuinfo.c b/src/LB_comm/shmem_cpuinfo.c
index 1116b75..a7f8b76 100644
--- a/src/LB_comm/shmem_cpuinfo.c
+++ b/src/LB_comm/shmem_cpuinfo.c
@@ -1269,8 +1269,9 @@ int shmem_cpuinfo__acquire_ncpus_from_cpu_subset(
         for (unsigned int i=0; i<cpus_priority_array->count; ++i) {
             cpuid_t cpuid = cpus_priority_array->items[i];
             const cpuinfo_t *cpuinfo = &shdata->node_info[cpuid];
-            /* Iterate until the first not owned CPU */
-            if (cpuinfo->owner != pid) break;
+            /* Owned CPUs are first, but some may have changed its owner since the
+             * priority array was created */
+            if (cpuinfo->owner != pid) continue;
             if (cpuinfo->guest != pid) {
                 /* This CPU is owned and not guested, no need to iterate anymore */
                 all_owned_cpus_are_guested = false;
-- 
2.43.0

