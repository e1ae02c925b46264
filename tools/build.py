#!/usr/bin/env python3
"""Builds DLB (from /repo's working tree) for the simulator, and the simulator itself.
Output goes to /verif/build/<hash of every input>/ ; nothing is written into /repo."""
import hashlib, os, re, subprocess, sys, shutil, time, fcntl
from concurrent.futures import ThreadPoolExecutor
VERIF=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO=os.environ.get('DLBSIM_REPO','/repo')
NCOPIES=12
CC='clang'
CFLAGS=['-O1','-g','-w','-fPIC','-fsanitize=thread','-mllvm','-tsan-instrument-func-entry-exit=0','-femulated-tls','-DHAVE_CONFIG_H','-D_GNU_SOURCE','-fno-omit-frame-pointer']
RENAME='''shm_open shm_unlink ftruncate mmap munmap close fstat access clock_gettime time gettimeofday usleep nanosleep sched_yield
pthread_mutex_init pthread_mutex_destroy pthread_mutex_lock pthread_mutex_trylock pthread_mutex_timedlock pthread_mutex_unlock pthread_mutex_consistent
pthread_cond_init pthread_cond_destroy pthread_cond_wait pthread_cond_timedwait pthread_cond_signal pthread_cond_broadcast
pthread_rwlock_init pthread_rwlock_destroy pthread_rwlock_rdlock pthread_rwlock_wrlock pthread_rwlock_tryrdlock pthread_rwlock_trywrlock pthread_rwlock_timedwrlock pthread_rwlock_timedrdlock pthread_rwlock_unlock
pthread_barrier_init pthread_barrier_destroy pthread_barrier_wait pthread_create pthread_join pthread_cancel pthread_self pthread_getaffinity_np pthread_setaffinity_np
sched_getaffinity sched_setaffinity sched_getcpu getpid getuid kill abort exit fork execvp gethostname getenv secure_getenv setenv unsetenv syscall ioctl isatty dlopen dlsym dlerror
fprintf vfprintf printf vprintf puts putchar fputs fputc fwrite fflush fopen fclose malloc calloc free realloc posix_memalign aligned_alloc strdup strndup vasprintf asprintf'''.split()
SPECIAL={'__emutls_get_address':'sim_emutls_get_address','sleep':'sim_sleep_s','_exit':'sim_exit_raw','__strdup':'sim_strdup2','__asprintf_chk':'sim_asprintf_chk'}
CONFIG_H='''#pragma once
#define DLB_CONFIGURE_ARGS "sim"
#define DLB_VERSION_HEXA 0x030500
#define HAVE_EMMINTRIN_H 1
#define HAVE_IMMINTRIN_H 1
#define HAVE_STDATOMIC_H 1
#define MPI_LIBRARY_VERSION "none"
#define PACKAGE "DLB"
#define PACKAGE_BUGREPORT "dlb-help@bsc.es"
#define PACKAGE_NAME "DLB"
#define PACKAGE_STRING "DLB 3.5"
#define PACKAGE_VERSION "3.5"
#define VERSION "3.5"
#define DLB_VERSION_MAJOR 3
#define DLB_VERSION_MINOR 5
#define DLB_VERSION_PATCH 0
#define DLB_VERSION_STRING "3.5"
#define DLB_VERSION "3.5"
'''
def sources():
    txt=open(f'{REPO}/meson.build').read()
    s=[]
    for m in re.findall(r"'(src/[A-Za-z0-9_/]*\.c)'",txt):
        if 'LB_MPI' in m or m.startswith('src/utils/') or m in s: continue
        s.append(m)
    return s
def inputs():
    r=[]
    for root,ds,fs in os.walk(f'{REPO}/src'):
        ds.sort()
        for f in sorted(fs):
            if f.endswith(('.c','.h','.in')): r.append(os.path.join(root,f))
    r.append(f'{REPO}/meson.build')
    return r
def simsrc(): return sorted(os.path.join(VERIF,'sim',f) for f in os.listdir(f'{VERIF}/sim') if f.endswith(('.cpp','.h')))
def sh(cmd):
    p=subprocess.run(cmd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
    if p.returncode: raise SystemExit('BUILD FAILED: '+' '.join(cmd)+'\n'+p.stdout[-6000:])
    return p.stdout
def hashfiles(fs,extra=''):
    h=hashlib.sha256(extra.encode())
    for f in fs: h.update(f.encode()); h.update(open(f,'rb').read())
    return h.hexdigest()[:16]
def build(quiet=True):
    t0=time.time(); os.makedirs(f'{VERIF}/build',exist_ok=True)
    lock=open(f'{VERIF}/build/.lock','w'); fcntl.flock(lock,fcntl.LOCK_EX)
    srcs=sources(); hl=hashfiles(inputs()+[os.path.abspath(__file__)],REPO+' '.join(CFLAGS)+CONFIG_H+' '.join(RENAME)+str(NCOPIES)+' '.join(srcs))
    apih=hashfiles([f for f in inputs() if '/apis/' in f])
    hs=hashfiles(simsrc(),apih)
    lib=f'{VERIF}/build/lib-{hl}'; sim=f'{VERIF}/build/sim-{hs}'
    if not os.path.exists(lib+'/ok'):
        shutil.rmtree(lib,ignore_errors=True); os.makedirs(lib+'/inc/apis')
        open(lib+'/inc/config.h','w').write(CONFIG_H)
        a=open(f'{REPO}/src/apis/dlb.h.in').read()
        a=re.sub(r'@[A-Z_]*HEXA@','0x030500',a); a=re.sub(r'@[A-Z_]*MAJOR@','3',a); a=re.sub(r'@[A-Z_]*@','5',a)
        open(lib+'/inc/apis/dlb.h','w').write(a)
        ren={s:'sim_'+s for s in RENAME}; ren.update(SPECIAL)
        open(lib+'/syms','w').write(''.join(f'{k} {v}\n' for k,v in ren.items()))
        objs=[]
        def comp(s):
            o=lib+'/'+s.replace('/','_')[:-2]+'.o'
            sh([CC,'-c',*CFLAGS,'-I'+lib+'/inc',f'-I{REPO}/src',f'-I{REPO}/src/apis',f'{REPO}/{s}','-o',o])
            sh(['objcopy',f'--redefine-syms={lib}/syms',o]); return o
        with ThreadPoolExecutor(8) as ex: objs=list(ex.map(comp,srcs))
        sh([CC,'-shared','-o',lib+'/dlb0.so',*objs,'-Wl,-Bsymbolic','-Wl,-z,now','-Wl,-z,relro','-Wl,--allow-shlib-undefined','-lm'])
        for i in range(1,NCOPIES): shutil.copy(lib+'/dlb0.so',lib+f'/dlb{i}.so')
        for o in objs: os.unlink(o)
        open(lib+'/ok','w').write('ok')
    if not os.path.exists(sim+'/ok'):
        shutil.rmtree(sim,ignore_errors=True); os.makedirs(sim)
        cpps=[f for f in simsrc() if f.endswith('.cpp')]
        def compp(s):
            o=sim+'/'+os.path.basename(s)[:-4]+'.o'
            sh(['clang++','-c','-std=c++17','-O2','-g','-Wall','-Wno-unused-function','-Wno-dangling-else','-Wno-misleading-indentation','-I'+lib+'/inc',f'-I{REPO}/src',f'-I{REPO}/src/apis',s,'-o',o]); return o
        with ThreadPoolExecutor(8) as ex: objs=list(ex.map(compp,cpps))
        sh(['clang++','-rdynamic','-o',sim+'/simrun',*objs,'-ldl','-lpthread','-lm'])
        open(sim+'/ok','w').write('ok')
    for d in (lib,sim): os.utime(d)
    for pre in ('lib-','sim-'):
        ds=sorted((os.path.getmtime(f'{VERIF}/build/{d}'),d) for d in os.listdir(f'{VERIF}/build') if d.startswith(pre))
        for m,d in ds[:-4]:
            if time.time()-m>1800: shutil.rmtree(f'{VERIF}/build/{d}',ignore_errors=True)
    fcntl.flock(lock,fcntl.LOCK_UN)
    if not quiet: print(f'built in {time.time()-t0:.1f}s: {sim}/simrun  {lib}')
    return sim+'/simrun', ','.join(f'{lib}/dlb{i}.so' for i in range(NCOPIES))
if __name__=='__main__':
    s,l=build(False)
