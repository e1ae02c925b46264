"""Which scenarios decide which property, and how many simulated runs each tier takes."""
STUBS=['libc/pthread/POSIX layer (simulated kernel: scheduler, clocks, shared memory, mutexes, condition variables, rwlocks, barriers, threads, processes, files, heap)','hardware topology (synthetic, through the library\'s own test entry point)','the applications calling DLB (generated clients)','MPI, tracing and the command line tools are not run']
_lewi=['DLB_interface, DLB_kernel, lewi_mask policy, shmem_cpuinfo, shmem_procinfo, shmem, numThreads, options, spd and all support code: real']
def L(q,**k): return dict(mix='lewi:1',quick=q,real=_lewi,**k)
_drom=['DLB_interface, DLB_interface_drom, DLB_kernel, DLB_process, shmem_procinfo, shmem_cpuinfo, shmem_barrier, shmem, lewi_mask policy (some runs), options, spd and all support code: real']
def LD(q,**k): return dict(mix='lewi:4,lewidrom:1',quick=q,real=_lewi+['DROM (shmem_procinfo, drom kernel calls)'],**k)
def D(q,**k): return dict(mix='drom:1',quick=q,real=_drom,**k)
_bar=['DLB_interface (barriers), DLB_kernel, shmem_barrier, node_barrier, shmem_cpuinfo, shmem_procinfo, shmem, lewi_mask policy, options and all support code: real']
def DL(q,**k): return dict(mix='drom:3,lewidrom:1',quick=q,real=_drom+['lewi_mask policy and shmem_cpuinfo'],**k)
def B(q,**k): return dict(mix='barrier:1',quick=q,real=_bar,**k)
_life=['DLB_interface, DLB_interface_drom/talp, DLB_kernel, every shared memory module, lewi, lewi_async and lewi_mask policies, shmem_async helper threads, TALP, node barriers, options, spd and all support code: real']
def F(q,**k): return dict(mix='life:1',quick=q,real=_life,**k)
_la=['DLB_interface, DLB_kernel, lewi_async policy, shmem_lewi_async, shmem_async (helper threads), queues, lewi_requests, shmem, numThreads, options, spd and all support code: real']
_cl=['DLB_interface, DLB_kernel, classic LeWI policy, comm_lend_light, shmem, numThreads, options, spd and all support code: real']
_as=['DLB_interface (CallbackSet, Init, Finalize, Lend/Reclaim paths that send messages), DLB_kernel, shmem_async (senders, queue and helper threads), pm, spd, shmem and all support code: real']
def A(q): return dict(mix='leasync:1',quick=q,real=['DLB_interface, DLB_kernel, lewi_mask policy in asynchronous mode, shmem_cpuinfo and its request queues, shmem_procinfo, shmem_async (helper threads), shmem_barrier and TALP (some runs), shmem, numThreads, options, spd and all support code: real'])
_talp=['DLB_interface_talp, DLB_kernel, DLB_talp (regions, samples, OpenMP and MPI/sync hooks), talp_openmp, talp_output, pop metrics, shmem_talp, options, spd and all support code: real']
def TX(q): return dict(mix='talpx:1',quick=q,real=_talp)
def T(q): return dict(mix='talp:1',quick=q,real=_talp)
PROPS={
 'C26':TX(120000),
 'C24':T(300000),'C25':T(300000),
 'C05':A(70000),'C06':A(70000),
 'C20':dict(mix='async:1',quick=60000,real=_as),
 'C11':dict(mix='lewiasync:1',quick=120000,real=_la),
 'C10':dict(mix='classic:1',quick=120000,real=_cl),
 'C01':LD(150000),'C02':LD(150000),'C03':LD(150000),'C04':LD(150000),'C07':L(150000),'C08':L(150000),'C09':L(150000),'C28':dict(mix='lewi:2,keys:1',quick=110000,real=_life),
 'C12':DL(70000),'C13':DL(70000),'C14':D(60000),'C15':D(60000),'C16':D(60000),'C17':DL(70000),
 'C21':F(100000),'C27':F(100000),
 'C22':dict(mix='crash:3,drom:1',quick=150000,real=_life),'C23':dict(mix='lockcrash:1',quick=150000,real=_life,rule='It is non-trivial when the process really died while holding a lock of a shared memory (the kind of lock and the step are drawn) and later processes initialized after it; two are distinct when the hash of the sequence of context switches differs.'),
 'C18':B(60000),'C19':B(60000),
}
_pure='Deterministic simulation cannot decide it: it is a pure function of its input, with no scheduling, time, I/O or second party for the property to depend on; seeded search over schedules and faults adds nothing over plain input generation, which is another technique.'
NA={'C30':_pure,'C31':_pure,'C32':_pure,'C33':_pure}
