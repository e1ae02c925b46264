#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (kept as a script so that the text stays editable)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,
        quantifier=dict(over=over,text=text),why_tests_cant=why,
        anchors=dict(files=files,**({'state':state} if state else {}),
            mechanism=[dict(name=n,where=w) for n,w in mech],
            observe_at=observe,hook_needed=hook)))
CI='src/LB_comm/shmem_cpuinfo.c'; PI='src/LB_comm/shmem_procinfo.c'; SH='src/LB_comm/shmem.c'
LM='src/LB_policies/lewi_mask.c'; K='src/LB_core/DLB_kernel.c'
p('C01','A CPU is in use by at most its owner and one borrower it was lent to',
 'With LeWI in polling mode, at any instant a CPU is being used (enabled and neither lent nor returned, as told through return codes and enable/disable callbacks) by at most one process. The only exception is the window opened by the owner asking back a CPU it had lent: then owner and the single previous borrower may overlap, until that borrower next polls for CPUs to return. No third process is ever given the CPU in that window.',
 ['schedules','histories','configurations'],
 'every interleaving of lend/borrow/acquire/reclaim/return/check-availability calls of 2..6 processes over any masks, SMT or not, any affinity policy',
 'Unit tests drive one thread through a fixed list of calls on fixed pids; races between processes on the shared table and rare call sequences are never executed.',
 [CI,LM,K],[('per-CPU owner/guest/state record changed only under the shared lock',CI+': lend_cpu, reclaim_cpu, acquire_cpu, borrow_cpu, return_cpu'),('callback dispatch',LM+': resolve_cpuinfo_tasks')],
 ['enable/disable CPU callbacks','return codes of DLB_Lend*/Borrow*/Acquire*/Reclaim*/Return*','DLB_PrintShmem table'])
p('C02','An owner always gets its lent CPUs back',
 'Reclaiming (or acquiring) a CPU the process owns never fails: an idle CPU is enabled at once, a borrowed one is flagged so that the borrower is told to stop using it the next time it polls or, in asynchronous mode, by its helper. After the borrower has been told, the CPU is exclusively the owner\'s, whatever other processes request meanwhile. Any number of reclaim/return rounds ends with every owner holding all of its CPUs.',
 ['schedules','histories'],'every interleaving and every history of lends, borrows, reclaims and polls',
 'Tests reclaim in one fixed situation at a time, single-threaded.',
 [CI,LM],[('reclaim marks the CPU busy; return gives it to the owner',CI+': reclaim_cpu, return_cpu, find_new_guest')],
 ['return codes','callbacks','DLB_PrintShmem'])
p('C03','No CPU is lost: idle lent CPUs stay obtainable',
 'A CPU that is lent and used by nobody is obtained by the next process that asks to borrow everything (unless that process is at its own parallelism limit, its own affinity policy excludes the CPU, or the CPU shares a core with another process), no matter which borrow attempts failed before. Once every process reclaims its own CPUs and polls for returns, each CPU is again used exactly by its owner.',
 ['schedules','histories'],'every interleaving of lends with concurrent unsuccessful borrows, every clock reading, every history',
 'Depends on a cached timestamp of the last failed borrow racing with a concurrent lend; no test runs two borrowers/lenders concurrently.',
 [CI,LM],[('lend timestamp vs. last unsuccessful borrow',CI+': update_shmem_timestamp, shmem_cpuinfo__borrow_ncpus_from_cpu_subset'),('free/occupied CPU sets',CI)],
 ['return codes','callbacks'])
p('C04','Only CPUs that a live registration has lent are handed out',
 'A process is never given a CPU that no registered process owns (when CPU sets are respected), nor one whose owner has not lent it, nor one of a finalized process unless post-mortem lending was requested. A request restricted to a set of CPUs enables none outside it (rounded up to whole cores with SMT, and except for the idle nodes added by the spread-ifempty policy).',
 ['schedules','histories','configurations'],'all histories of init, lend, request and finalize, including lend-everything calls while requests are pending',
 'Tests always register the whole node, so unregistered CPUs never exist in them.',
 [CI],[('CPU state disabled/busy/lent',CI),('pending request hand-out on lend',CI+': find_new_guest')],['callbacks','DLB_PrintShmem'])
p('C05','Queued CPU requests are served exactly, in time, and can be withdrawn',
 'In asynchronous mode a request that could not be satisfied at once is satisfied as soon as suitable CPUs are lent, without the requester calling again; the requester never receives more CPUs than it asked for in total, and only CPUs from the set it allowed. Deleting requests, disabling or finalizing stops further deliveries, and a request of one process never consumes or cancels that of another.',
 ['schedules','histories'],'all interleavings of requests, lends, withdrawals and finalizations by several processes',
 'Tests check one request served by one lend.',
 [CI,'src/support/queue_template.h',LM],[('per-CPU and global request queues',CI+': find_new_guest, acquire_ncpus_from_cpu_subset'),('ring queue',"src/support/queue_template.h")],['enable CPU callbacks run by the helper thread','return codes'])
p('C06','Asynchronous mode: callbacks converge to the node\'s real assignment',
 'In asynchronous mode, when activity stops, the CPUs each process has been told to use (enables minus disables, its own lends included) are exactly the CPUs the node assigns to it, and no CPU is assigned to two processes. A borrower told to stop using a CPU really loses it, and the owner that asked for it is told to use it.',
 ['schedules','histories'],'all interleavings of helper threads and API calls',
 'Needs helper threads of several processes running concurrently with API calls; tests use one process and sleeps.',
 ['src/LB_comm/shmem_async.c',CI,LM],[('helper thread per process applying enable/disable messages','src/LB_comm/shmem_async.c'),('hand-back after a disable',CI+': shmem_cpuinfo__return_async_cpu')],['callbacks','DLB_PrintShmem'])
p('C07','Maximum parallelism is honoured',
 'After a process sets a maximum parallelism, the number of CPUs assigned to it is at most that maximum as soon as the call returns, and no later borrow or acquire by number or of everything raises it above the maximum until the limit is changed or removed. Excess CPUs are lent so others can borrow them, and a request for n CPUs never obtains more than n (rounded up to whole cores with SMT).',
 ['schedules','histories','inputs'],'any sequence of limits, lends, borrows, acquires across processes',
 'Tests use a couple of fixed limits with one process.',
 [CI,LM,'src/LB_policies/lewi.c','src/LB_policies/lewi_async.c'],[('limit applied on set and on borrow',CI+': shmem_cpuinfo__update_max_parallelism')],['callbacks','DLB_PrintShmem','set_num_threads callback'])
p('C08','Disable and finalize give back everything and undo sharing',
 'Disabling LeWI or finalizing a process returns every CPU it had borrowed, takes its own CPUs out of sharing (unless post-mortem lending is on), and cancels its requests; afterwards no process other than a not-yet-polled borrower uses them and other processes keep working. While disabled, the process neither lends nor obtains CPUs, and enabling again restores normal operation.',
 ['schedules','histories'],'any point in any history, concurrent with other processes',
 'Tests finalize from quiet states only.',
 [CI,LM,K],[('reset / deregister of a process',CI+': shmem_cpuinfo__reset, shmem_cpuinfo__deregister')],['callbacks','return codes','DLB_PrintShmem'])
p('C09','Blocking calls lend while blocked and restore what was lent',
 'When a thread enters a blocking call under LeWI, CPUs lent on its behalf become obtainable by others, and when it leaves, every owned CPU that was lent there is asked back, so that the process ends with at least the CPUs it owned and used on entry. A CPU still in use by the process is not given away.',
 ['schedules','histories'],'any interleaving of enter/leave with other processes, keep-one-CPU on or off',
 'Tests exercise enter/leave without concurrent borrowers.',
 [LM,'src/LB_policies/lewi.c','src/LB_policies/lewi_async.c',K,'src/LB_core/node_barrier.c'],[('enter/leave hooks',K+': into_sync_call/out_of_sync_call'),('saved CPU subset',LM+': lewi_mask_IntoBlockingCall/OutOfBlockingCall')],['callbacks','DLB_PrintShmem'])
p('C10','Classic LeWI conserves the total number of CPUs',
 'Without CPU binding, the CPUs in use by all registered processes plus the idle ones always add up to the CPUs they registered: a lent CPU is handed to at most one process and none vanishes, and a process that leaves a blocking call ends up with at least its default number once others have adapted. This holds for any interleaving of the lock-free updates.',
 ['schedules','histories','configurations'],'all interleavings of atomic updates by several processes, greedy on/off',
 'Lock-free counters raced by several processes; tests are sequential.',
 ['src/LB_comm/comm_lend_light.c','src/LB_policies/lewi.c'],[('atomic idle-CPU counter','src/LB_comm/comm_lend_light.c: releaseCpus, acquireCpus, checkIdleCpus')],['set_num_threads callback','borrow results'])
p('C11','Asynchronous classic LeWI conserves and recovers CPUs',
 'In asynchronous classic LeWI the CPUs assigned to all processes plus idle ones equal the CPUs registered by those attached; a process reclaiming gets its own count back immediately in the accounting and others are told to shrink; requests are served when CPUs become idle. At finalization a process takes exactly its registered CPUs out of the pool.',
 ['schedules','histories'],'all interleavings of lend/borrow/acquire/reclaim/finalize by several processes',
 'Tests check fixed sequences against hand-computed numbers.',
 ['src/LB_comm/shmem_lewi_async.c','src/LB_policies/lewi_async.c'],[('per-process current/initial CPU counts under lock, request queue','src/LB_comm/shmem_lewi_async.c')],['set_num_threads callback','return codes'])
p('C12','DROM: no CPU belongs to two processes',
 'With dynamic resource ownership, the masks assigned to registered processes (the pending one if there is one, else the current one) never overlap unless CPU sharing was explicitly enabled, and every CPU of an assigned mask that nobody owns any more can be assigned again. This holds under concurrent mask changes, registrations and exits.',
 ['schedules','histories','fault_sequences'],'all interleavings of set-mask, poll, init, pre-init, finalize by targets and several administrators',
 'Tests run one administrator and one target in one thread.',
 [PI,'src/apis/DLB_interface_drom.c'],[('current/future masks and free mask under lock',PI+': set_new_mask, register_mask, steal_mask, unregister_mask')],['DLB_DROM_GetProcessMask','DLB_PollDROM','return codes'])
p('C13','DROM: an accepted mask change is delivered exactly once',
 'A mask set by an administrator with success is seen by the target at its next poll (or its next query of its own mask) exactly once and with exactly that mask; a second change is refused while one is pending, and without a change polls report that there is nothing to do. After delivery, queries report the new mask.',
 ['schedules','histories'],'all interleavings of set-mask and polls',
 'Tests poll at one fixed point after each set.',
 [PI,K],[('pending flag',PI+': set_new_mask, shmem_procinfo__polldrom')],['DLB_PollDROM/_Update','DLB_DROM_Set/GetProcessMask','set_process_mask callback'])
p('C14','DROM: a refused request changes nothing',
 'If setting a mask or pre-registering a process fails (not permitted, target busy, no room, the CPUs could not be taken in time), every process keeps the mask it had, pending or current, and the free CPUs are unchanged, so a later valid request succeeds. A change that was accepted and only not applied in time by its target stays pending.',
 ['schedules','histories','inputs'],'all masks, flags and states, including failures half-way through taking CPUs from several victims',
 'Half-way failures need particular combinations of victims and states.',
 [PI],[('check before apply, roll-back',PI+': steal_mask, register_mask')],['DLB_DROM_GetProcessMask','return codes'])
p('C15','DROM: synchronous requests are bounded and honest',
 'A synchronous query or change returns success only when the target has applied it, and otherwise returns a time-out after a bounded time, leaving no CPU assigned twice or lost, even if the target is slow, exits or dies while the caller waits.',
 ['schedules','fault_sequences'],'target polling at any time around the limit, never, exiting or crashing',
 'Wait and poll race at the time limit; tests only poll well before it.',
 [PI],[('bounded polling wait',PI+': SYNC_POLL loops')],['return codes and simulated time','masks'])
p('C16','DROM: stolen CPUs go back to whom they were taken from',
 'When a process that took CPUs from others leaves with the return option, each CPU goes back to the still-registered process it was taken from, and to exactly one process; when the victim is gone the CPU becomes free. Without that option a victim can recover its still-free CPUs later, and never one that someone else owns.',
 ['schedules','histories'],'all sequences of pre-init with stealing, mask changes, finalizations in any order',
 'Only two-process sequences are tested.',
 [PI],[('stolen-CPU bookkeeping',PI+': steal_mask, shmem_procinfo__recover_stolen_cpus, unregister_mask')],['DLB_DROM_GetProcessMask','DLB_DROM_RecoverStolenCpus'])
p('C17','Pre-registration hands its CPUs to the real process exactly once',
 'CPUs reserved for a future process are unavailable to others from the moment of the reservation, are inherited by that process when it initializes (with the mask reserved, or the changed mask if an administrator changed it meanwhile), and become free once it finalizes or the reservation is cancelled, in whatever order creator and child act.',
 ['schedules','histories','crash_points'],'all orders of creator and child actions including child death before initialization',
 'Tests run the single expected order.',
 [PI,CI,K],[('inheritance of a pre-registered entry',PI+': shmem_procinfo__init'),('CPU table pre-registration',CI+': shmem_cpuinfo_ext__preinit')],['DLB_Init result','DLB_DROM_GetProcessMask'])
p('C18','The node barrier synchronizes all participants',
 'No participant leaves a node barrier round before every current participant has entered it, and once all have entered all of them leave; rounds never mix, for any number of rounds and schedules. A thread waiting there sees LeWI lend its CPU and restore it afterwards.',
 ['schedules','histories'],'all interleavings of repeated barriers by 2..6 processes, spurious wake-ups, stalls',
 'Tests fork a few processes on real scheduling.',
 ['src/LB_comm/shmem_barrier.c','src/LB_core/node_barrier.c'],[('process-shared barrier, held read lock','src/LB_comm/shmem_barrier.c: shmem_barrier__barrier')],['order of barrier entries and exits'])
p('C19','Barrier membership can change at any time without losing anyone',
 'A process may attach to or detach from a (named) barrier, register new named barriers, initialize or finalize at any time relative to others. Attaching reports how many participants there are; every round waits for exactly the processes that participate in it and lets all of them leave; a change of membership takes effect between two rounds, and a process waiting for a round to end before it can change membership does not prevent that round from ending nor blocks unrelated calls; nobody waits for a process that has left, and a name denotes the same barrier in all processes. (Detaching while others already wait for one in the same round is documented to need synchronization by the user.)',
 ['schedules','histories'],'all interleavings of attach, detach, register, finalize and barrier calls',
 'Timing between attach/detach and a round in flight is uncontrolled in the tests.',
 ['src/LB_comm/shmem_barrier.c','src/LB_core/node_barrier.c',SH],[('resize of the barrier on attach/detach','src/LB_comm/shmem_barrier.c'),('busy/maintenance states',SH)],['return codes','entries and exits','termination'])
p('C20','Asynchronous messages arrive exactly once, in order, to the right process',
 'Every message sent to a process\'s helper while it is running is applied exactly once, in the order sent by each sender, and never to another process; messages accepted before it finalizes are applied before finalization completes. With fewer than a hundred messages outstanding (a full queue is a fatal error by design), senders and finalization never block forever, even when the target is slow or exiting.',
 ['schedules','histories','fault_sequences'],'all interleavings of several senders, helper and finalization; spurious wake-ups; slow callbacks',
 'One sender with sleeps in the tests.',
 ['src/LB_comm/shmem_async.c'],[('bounded message ring with lock and condition','src/LB_comm/shmem_async.c: enqueue_message, dequeue_message, thread_start')],['callbacks applied by the helper'])
p('C21','Processes that start with the same key always share one state',
 'Any number of processes initializing and finalizing concurrently with the same key end up attached to the same shared state, seeing each other\'s registrations; nobody attaches to a half-initialized or already deleted one, and the shared state disappears from the system exactly when the last process leaves.',
 ['schedules','histories'],'all interleavings of initialization with other initializations and finalizations',
 'Start-up and tear-down races are never scheduled by the tests.',
 [SH,CI,PI],[('creator election and initialized flag',SH+': shmem_init'),('last process unlinks',SH+': shmem_finalize')],['DLB_DROM_GetPidList','names left in the system','mutual visibility'])
p('C22','The death of a process harms nobody and is cleaned up',
 'If a process dies at any point outside a shared critical section, the other processes keep operating correctly on what is theirs, and the next process that initializes frees exactly the dead process\'s CPUs, requests, barrier memberships and entries: nothing of a living process is touched and nothing of the dead one remains usable.',
 ['crash_points','schedules','fault_sequences'],'crash at any step of any process, any later initialization, pid reuse',
 'Tests kill one idle process.',
 [SH,CI,PI,'src/LB_comm/shmem_barrier.c','src/LB_comm/shmem_talp.c','src/LB_comm/shmem_lewi_async.c'],[('liveness check and per-module clean-up at init',SH+': shmem_consistency_check_pids')],['return codes','masks','callbacks','later barriers complete'])
p('C23','A crash while holding a shared lock leads to a prompt, clean error',
 'If a process dies inside a shared critical section, a process that initializes later does not hang or continue on inconsistent data: within about a second it stops with a diagnostic that tells how to recover, and after the stale state is removed a new set of processes starts normally.',
 ['crash_points','schedules'],'crash at any step inside any critical section; realtime clock jumps',
 'No test dies holding the lock.',
 [SH,'src/support/debug.c'],[('timed lock at initialization',SH+': shmem_init')],['diagnostic and termination of the initializing process, simulated time'])
p('C24','TALP accounts every nanosecond exactly once',
 'For each monitoring region, the accumulated useful, communication and (with OpenMP) not-useful times are never negative and add up to the region\'s elapsed time multiplied by the threads measured; elapsed times equal the sum of the intervals between start and stop, whatever region, thread or process boundaries occur meanwhile.',
 ['schedules','histories'],'all sequences of regions and synchronization calls on several threads, all clock readings',
 'Tests use real clocks and hence only inequalities.',
 ['src/LB_core/DLB_talp.c'],[('per-thread samples flushed into open regions','src/LB_core/DLB_talp.c: talp_update_sample, update_regions_with_macrosample')],['region data after stop'])
p('C25','TALP regions start, stop, nest and reset as documented',
 'Starting a started region or stopping a stopped one reports that nothing was done and changes nothing; the number of measurements equals the number of completed start/stop pairs since the last reset; regions may nest and overlap freely, a reset region restarts from zero, the special names for current/global regions resolve to the right region, and finalization stops what is still open.',
 ['histories','schedules'],'any sequence of region operations from any thread',
 'Tests follow a few nestings; reset of a running region followed by finalize is not among them.',
 ['src/LB_core/DLB_talp.c','src/apis/DLB_interface_talp.c'],[('open-region list and flags','src/LB_core/DLB_talp.c: monitoring_region_start/stop/reset')],['return codes and region data'])
p('C26','External observers read consistent TALP data of live processes only',
 'With the external profiler enabled, times that another process reads for a process and region are non-decreasing between resets, equal what the process itself reports when it is quiescent, belong to the process and region asked for, and disappear once the process finalizes; node-wide aggregates are those of the processes registered.',
 ['schedules','histories','crash_points'],'any interleaving of readers with region updates, registration, finalization',
 'Tests read from the same thread that wrote.',
 ['src/LB_comm/shmem_talp.c','src/LB_core/DLB_talp.c','src/apis/DLB_interface_talp.c'],[('shared region table','src/LB_comm/shmem_talp.c')],['DLB_TALP_GetTimes, GetNodeTimes, QueryPOPNodeMetrics'])
p('C27','Initialization and finalization are idempotent, repeatable and leak-free',
 'Exactly one of several concurrent initializations (or finalizations) in a process takes effect and the others report it; calls before initialization or after finalization return the documented error; a process can initialize and finalize, or attach and detach as administrator, any number of times without exhausting system resources and starts from clean state each time. A failed initialization leaves nothing registered.',
 ['schedules','histories','fault_sequences'],'all interleavings of threads calling init/finalize/attach/detach; failing system calls',
 'Tests cycle a few times at most.',
 ['src/apis/DLB_interface.c',K,'src/LB_core/spd.c',SH],[('compare-and-swap on the initialized flag','src/apis/DLB_interface.c')],['return codes','open descriptors and mappings','shared state left behind'])
p('C28','Groups with different keys or colors do not interact',
 'Processes initialized with different shared-memory keys never observe or affect each other, and LeWI only moves CPUs between processes of the same color, for any interleaving.',
 ['schedules','configurations'],'all mixes of keys and colors',
 'Tests use a single key.',
 [SH,CI,PI],[('key and color in the shared name',SH+': get_shmem_filename')],['callbacks','DLB_DROM_GetPidList'])
p('C29','OpenMP thread managers follow the CPU assignment',
 'With the OpenMP tool, the number of threads or free agents and their binding always correspond to CPUs currently assigned to the process: at each parallel region start or assignment change the team is not larger than the assigned CPUs, each thread is bound to a distinct assigned CPU, and CPUs lent on entering serial or blocking parts come back.',
 ['schedules','histories'],'all sequences of OpenMP events and LeWI/DROM changes',
 'Tests call the handlers in one fixed order.',
 ['src/LB_numThreads/omptm_omp5.c','src/LB_numThreads/omptm_free_agents.c','src/LB_numThreads/omptm_role_shift.c','src/LB_numThreads/omptool.c'],[('OMPT callbacks','src/LB_numThreads/omptool.c')],['omp_set_num_threads and thread affinity calls','LeWI callbacks'])
p('C30','CPU masks are parsed and printed faithfully',
 'Every syntactically valid CPU list or hexadecimal/binary mask is parsed to the set it denotes, printing and parsing again yields the same set, and invalid text is rejected.',
 ['inputs'],'all strings','Tests sample strings.',
 ['src/support/mask_utils.c'],[('mask parser and printer','src/support/mask_utils.c: mu_parse_mask, mu_to_str')],['returned sets'])
p('C31','Options are parsed consistently',
 'Options given through the environment, through arguments or set at run time yield the documented value with the documented precedence, unknown ones are reported, and printing then parsing yields the same configuration.',
 ['inputs','configurations'],'all option strings','Tests sample strings.',
 ['src/support/options.c','src/support/env.c'],[('option table','src/support/options.c')],['DLB_GetVariable'])
p('C32','POP efficiency metrics follow their definitions',
 'Efficiencies computed from accumulated times equal the documented formulas, lie in [0,1] for consistent input and never divide by zero.',
 ['inputs'],'all metric inputs','Tests sample inputs.',
 ['src/support/perf_metrics.h','src/LB_core/DLB_talp.c'],[('metric formulas','src/support/perf_metrics.h')],['computed metrics'])
p('C33','Reports contain exactly the measured data',
 'JSON, XML, CSV and text reports are well formed and contain every region and process measured, and talp-pages renders the same numbers.',
 ['inputs','configurations'],'all region names and values','Tests compare few outputs.',
 ['src/support/talp_output.c','talp-pages'],[('writers','src/support/talp_output.c')],['report files'])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+'\n')
print(len(P),'properties')
