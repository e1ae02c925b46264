// ThreadSanitizer instrumentation entry points: the simulator's preemption points.
#include "engine.h"
extern "C" void hook_mem(const void* a);
#define H extern "C" __attribute__((visibility("default")))
H void __tsan_init(){} H void __tsan_func_entry(void*){} H void __tsan_func_exit(){}
#define RW(n) H void __tsan_read##n(void* a){hook_mem(a);} H void __tsan_write##n(void* a){hook_mem(a);} H void __tsan_unaligned_read##n(void* a){hook_mem(a);} H void __tsan_unaligned_write##n(void* a){hook_mem(a);} \
 H void __tsan_volatile_read##n(void* a){hook_mem(a);} H void __tsan_volatile_write##n(void* a){hook_mem(a);} H void __tsan_read_write##n(void* a){hook_mem(a);} H void __tsan_unaligned_read_write##n(void* a){hook_mem(a);} H void __tsan_unaligned_volatile_read##n(void* a){hook_mem(a);} H void __tsan_unaligned_volatile_write##n(void* a){hook_mem(a);}
RW(1) RW(2) RW(4) RW(8) RW(16)
H void __tsan_read_range(void* a,long){hook_mem(a);} H void __tsan_write_range(void* a,long){hook_mem(a);}
H void __tsan_vptr_update(void**,void*){} H void __tsan_vptr_read(void**){}
// block copies are preemptible half way: another process may see a torn structure
static void split(char* d,const char* s,size_t n){ hook_mem(d); if(n>64&&!addr_is_stack(d)){ size_t h=(n/2)&~7ULL; memcpy(d,s,h); hook_mem(d+h); memcpy(d+h,s+h,n-h); } else if(n>64&&!addr_is_stack(s)){ size_t h=(n/2)&~7ULL; memcpy(d,s,h); hook_mem(s+h); memcpy(d+h,s+h,n-h); } else memcpy(d,s,n); }
H void* __tsan_memcpy(void* d,const void* s,size_t n){ hook_mem(s); split((char*)d,(const char*)s,n); return d; }
H void* __tsan_memmove(void* d,const void* s,size_t n){ hook_mem(s); hook_mem(d); return memmove(d,s,n); }
H void* __tsan_memset(void* d,int c,size_t n){ hook_mem(d); return memset(d,c,n); }
template<class T> static inline T ld(const volatile T* a){ return *a; }
#define AT(b,T) \
H T __tsan_atomic##b##_load(const volatile T* a,int){ hook_mem((void*)a); return ld(a);} \
H void __tsan_atomic##b##_store(volatile T* a,T v,int){ hook_mem((void*)a); *a=v; } \
H T __tsan_atomic##b##_exchange(volatile T* a,T v,int){ hook_mem((void*)a); T o=*a; *a=v; return o; } \
H T __tsan_atomic##b##_fetch_add(volatile T* a,T v,int){ hook_mem((void*)a); T o=*a; *a=o+v; return o; } \
H T __tsan_atomic##b##_fetch_sub(volatile T* a,T v,int){ hook_mem((void*)a); T o=*a; *a=o-v; return o; } \
H T __tsan_atomic##b##_fetch_and(volatile T* a,T v,int){ hook_mem((void*)a); T o=*a; *a=o&v; return o; } \
H T __tsan_atomic##b##_fetch_or(volatile T* a,T v,int){ hook_mem((void*)a); T o=*a; *a=o|v; return o; } \
H T __tsan_atomic##b##_fetch_xor(volatile T* a,T v,int){ hook_mem((void*)a); T o=*a; *a=o^v; return o; } \
H T __tsan_atomic##b##_fetch_nand(volatile T* a,T v,int){ hook_mem((void*)a); T o=*a; *a=~(o&v); return o; } \
H int __tsan_atomic##b##_compare_exchange_strong(volatile T* a,T* e,T v,int,int){ hook_mem((void*)a); if(*a==*e){ *a=v; return 1;} *e=*a; return 0; } \
H int __tsan_atomic##b##_compare_exchange_weak(volatile T* a,T* e,T v,int,int){ hook_mem((void*)a); if(*a==*e){ *a=v; return 1;} *e=*a; return 0; } \
H T __tsan_atomic##b##_compare_exchange_val(volatile T* a,T e,T v,int,int){ hook_mem((void*)a); T o=*a; if(o==e) *a=v; return o; }
AT(8,unsigned char) AT(16,unsigned short) AT(32,unsigned int) AT(64,unsigned long) AT(128,unsigned __int128)
H void __tsan_atomic_thread_fence(int){} H void __tsan_atomic_signal_fence(int){}
