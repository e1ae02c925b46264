// Tiny multi-process driver for demonstrations: the parent tells forked children which DLB calls to make.
#ifndef DEMO_H
#define DEMO_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sched.h>
#include <signal.h>
#include <errno.h>
#include <time.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <pthread.h>
#include "apis/dlb.h"
#include "apis/dlb_drom.h"
#include "apis/dlb_talp.h"
#include "apis/dlb_errors.h"
void mu_testing_set_sys(unsigned ncpus,unsigned ncores,unsigned nnodes);
#define NCH 8
typedef struct { int rc; unsigned long has; int nthreads; long v; } res_t;
typedef int (*fn_t)(long a,long b);
typedef struct { fn_t f; long a,b; } cmd_t;
static int c_in[NCH], c_out[NCH], c_pid[NCH], c_n;
static char KEY[64];
static volatile unsigned long HAS; static volatile int NTH; static volatile long VAL;
static cpu_set_t bits(unsigned long b){ cpu_set_t s; CPU_ZERO(&s); for(int i=0;i<64;i++) if(b>>i&1) CPU_SET(i,&s); return s; }
static unsigned long unbits(const cpu_set_t*s){ unsigned long b=0; for(int i=0;i<64;i++) if(CPU_ISSET(i,s)) b|=1UL<<i; return b; }
static void cb_en(int c,void*x){ (void)x; __sync_fetch_and_or(&HAS,1UL<<c); }
static void cb_di(int c,void*x){ (void)x; __sync_fetch_and_and(&HAS,~(1UL<<c)); }
static void cb_nt(int n,void*x){ (void)x; NTH=n; }
static void demo_callbacks(void){ DLB_CallbackSet(dlb_callback_enable_cpu,(dlb_callback_t)cb_en,NULL); DLB_CallbackSet(dlb_callback_disable_cpu,(dlb_callback_t)cb_di,NULL); DLB_CallbackSet(dlb_callback_set_num_threads,(dlb_callback_t)cb_nt,NULL); }
static int SYS_CPUS=8, SYS_CORES=8, SYS_NODES=1;
static const char* OPTS="--lewi";
static int f_init(long m,long opts){ char b[512]; snprintf(b,sizeof b,"--shm-key=%s %s",KEY,opts?(const char*)opts:OPTS); cpu_set_t s=bits(m); mu_testing_set_sys(SYS_CPUS,SYS_CORES,SYS_NODES); int r=DLB_Init(m?CPU_COUNT(&s):2,m?&s:NULL,b); if(r>=0){ demo_callbacks(); HAS=m; } return r; }
static int f_fini(long a,long b){ (void)a;(void)b; return DLB_Finalize(); }
static int f_lend(long m,long b){ (void)b; HAS&=~m; cpu_set_t s=bits(m); return DLB_LendCpuMask(&s); }
static int f_lendall(long a,long b){ (void)a;(void)b; HAS=0; return DLB_Lend(); }
static int f_reclaim(long a,long b){ (void)a;(void)b; return DLB_Reclaim(); }
static int f_reclaimmask(long m,long b){ (void)b; cpu_set_t s=bits(m); return DLB_ReclaimCpuMask(&s); }
static int f_borrow(long a,long b){ (void)a;(void)b; return DLB_Borrow(); }
static int f_borrowmask(long m,long b){ (void)b; cpu_set_t s=bits(m); return DLB_BorrowCpuMask(&s); }
static int f_borrown(long n,long b){ (void)b; return DLB_BorrowCpus(n); }
static int f_acquiremask(long m,long b){ (void)b; cpu_set_t s=bits(m); return DLB_AcquireCpuMask(&s); }
static int f_acquirecpu(long c,long b){ (void)b; return DLB_AcquireCpu(c); }
static int f_acquiren(long n,long b){ (void)b; return DLB_AcquireCpus(n); }
static int f_return(long a,long b){ (void)a;(void)b; return DLB_Return(); }
static int f_returnmask(long m,long b){ (void)b; cpu_set_t s=bits(m); return DLB_ReturnCpuMask(&s); }
static int f_setmax(long n,long b){ (void)b; return DLB_SetMaxParallelism(n); }
static int f_disable(long a,long b){ (void)a;(void)b; return DLB_Disable(); }
static int f_enable(long a,long b){ (void)a;(void)b; return DLB_Enable(); }
static int f_check(long c,long b){ (void)b; return DLB_CheckCpuAvailability(c); }
static int f_msleep(long ms,long b){ (void)b; usleep(ms*1000); return 0; }
static void demo_cleanup(void){ char c[300]; for(int i=0;i<7;i++){ static const char* m[]={"cpuinfo","procinfo","barrier","async","lewi","lewi_async","talp"}; snprintf(c,sizeof c,"/DLB_%s_%s",m[i],KEY); shm_unlink(c); for(int k=1;k<4;k++){ snprintf(c,sizeof c,"/DLB_%s_%d_%s",m[i],k,KEY); shm_unlink(c); } } }
static void demo_end(void){ for(int i=0;i<c_n;i++) if(c_pid[i]>0) kill(c_pid[i],SIGKILL); demo_cleanup(); }
static void spawn1(void){ int a[2],b[2]; if(pipe(a)||pipe(b)) exit(70); int p=fork(); if(p==0){ close(a[1]); close(b[0]); cmd_t c; while(read(a[0],&c,sizeof c)==sizeof c){ res_t r; memset(&r,0,sizeof r); r.rc=c.f(c.a,c.b); r.has=HAS; r.nthreads=NTH; r.v=VAL; if(write(b[1],&r,sizeof r)!=sizeof r) break; } _exit(0); } close(a[0]); close(b[1]); c_in[c_n]=a[1]; c_out[c_n]=b[0]; c_pid[c_n]=p; c_n++; }
static void demo_start(int n){ snprintf(KEY,sizeof KEY,"demo%d",(int)getpid()); setvbuf(stdout,NULL,_IONBF,0); signal(SIGPIPE,SIG_IGN); unsetenv("DLB_ARGS"); alarm(200); for(int i=0;i<n;i++) spawn1(); atexit(demo_end); }
static void post(int k,fn_t f,long a,long b){ cmd_t c; memset(&c,0,sizeof c); c.f=f; c.a=a; c.b=b; if(write(c_in[k],&c,sizeof c)!=sizeof c){ printf("child %d is gone\n",k); exit(1); } }
static res_t get(int k){ res_t r; ssize_t n=read(c_out[k],&r,sizeof r); if(n!=sizeof r){ printf("child %d died\n",k); exit(1); } return r; }
static res_t call(int k,fn_t f,long a,long b){ post(k,f,a,b); return get(k); }
static inline int dead_nop(long a,long b){ (void)a;(void)b; return 0; }
#define CHECK(c,...) do{ if(!(c)){ printf("DEMO FAILED: %s: ",#c); printf(__VA_ARGS__); printf("\n"); exit(1); } }while(0)
#endif
