#pragma once
// Replacement of the ThreadSanitizer runtime: code compiled with -fsanitize=thread reports each of its memory
// accesses to sync_access(address,bytes,write), and the atomic operations to sync_atomic.
#include <cstdint>
#include <cstring>
#include <cstddef>
static void sync_access(const void*p,size_t n,bool write);
static void sync_atomic(const void*p,size_t n);
#define TS_RW(n) extern "C" void __tsan_read##n(void*p){ sync_access(p,n,false); } extern "C" void __tsan_write##n(void*p){ sync_access(p,n,true); } \
  extern "C" void __tsan_unaligned_read##n(void*p){ sync_access(p,n,false); } extern "C" void __tsan_unaligned_write##n(void*p){ sync_access(p,n,true); } \
  extern "C" void __tsan_read_write##n(void*p){ sync_access(p,n,true); } extern "C" void __tsan_unaligned_read_write##n(void*p){ sync_access(p,n,true); } \
  extern "C" void __tsan_volatile_read##n(void*p){ sync_access(p,n,false); } extern "C" void __tsan_volatile_write##n(void*p){ sync_access(p,n,true); }
TS_RW(1) TS_RW(2) TS_RW(4) TS_RW(8) TS_RW(16)
extern "C" void __tsan_read_range(void*p,size_t n){ sync_access(p,n,false); }
extern "C" void __tsan_write_range(void*p,size_t n){ sync_access(p,n,true); }
extern "C" void __tsan_init(){} extern "C" void __tsan_func_entry(void*){} extern "C" void __tsan_func_exit(){}
extern "C" void __tsan_vptr_update(void**p,void*v){ sync_access(p,8,true); (void)v; } extern "C" void __tsan_vptr_read(void**p){ sync_access(p,8,false); }
extern "C" void __tsan_ignore_thread_begin(){} extern "C" void __tsan_ignore_thread_end(){}
extern "C" void*__tsan_memcpy(void*d,const void*s,size_t n){ if(n){ sync_access(s,n,false); sync_access(d,n,true); } return memcpy(d,s,n); }
extern "C" void*__tsan_memmove(void*d,const void*s,size_t n){ if(n){ sync_access(s,n,false); sync_access(d,n,true); } return memmove(d,s,n); }
extern "C" void*__tsan_memset(void*d,int c,size_t n){ if(n) sync_access(d,n,true); return memset(d,c,n); }
#define TS_AT(B,T) extern "C" T __tsan_atomic##B##_load(const volatile T*p,int){ sync_atomic((void*)p,B/8); return __atomic_load_n(p,5); } \
  extern "C" void __tsan_atomic##B##_store(volatile T*p,T v,int){ sync_atomic((void*)p,B/8); __atomic_store_n(p,v,5); } \
  extern "C" T __tsan_atomic##B##_exchange(volatile T*p,T v,int){ sync_atomic((void*)p,B/8); return __atomic_exchange_n(p,v,5); } \
  extern "C" T __tsan_atomic##B##_fetch_add(volatile T*p,T v,int){ sync_atomic((void*)p,B/8); return __atomic_fetch_add(p,v,5); } \
  extern "C" T __tsan_atomic##B##_fetch_sub(volatile T*p,T v,int){ sync_atomic((void*)p,B/8); return __atomic_fetch_sub(p,v,5); } \
  extern "C" T __tsan_atomic##B##_fetch_and(volatile T*p,T v,int){ sync_atomic((void*)p,B/8); return __atomic_fetch_and(p,v,5); } \
  extern "C" T __tsan_atomic##B##_fetch_or(volatile T*p,T v,int){ sync_atomic((void*)p,B/8); return __atomic_fetch_or(p,v,5); } \
  extern "C" T __tsan_atomic##B##_fetch_xor(volatile T*p,T v,int){ sync_atomic((void*)p,B/8); return __atomic_fetch_xor(p,v,5); } \
  extern "C" int __tsan_atomic##B##_compare_exchange_strong(volatile T*p,T*e,T v,int,int){ sync_atomic((void*)p,B/8); return __atomic_compare_exchange_n(p,e,v,0,5,5); } \
  extern "C" int __tsan_atomic##B##_compare_exchange_weak(volatile T*p,T*e,T v,int,int){ sync_atomic((void*)p,B/8); return __atomic_compare_exchange_n(p,e,v,0,5,5); } \
  extern "C" T __tsan_atomic##B##_compare_exchange_val(volatile T*p,T e,T v,int,int){ sync_atomic((void*)p,B/8); __atomic_compare_exchange_n(p,&e,v,0,5,5); return e; }
TS_AT(8,uint8_t) TS_AT(16,uint16_t) TS_AT(32,uint32_t) TS_AT(64,uint64_t)
extern "C" void __tsan_atomic_thread_fence(int){} extern "C" void __tsan_atomic_signal_fence(int){}

// memory touched since the last clear(): a word of eight bytes maps to a set of flags
struct WordMap {
  static const size_t N=1u<<20; uint64_t*key; uint8_t*val; uint32_t*used; size_t n; bool full;
  WordMap(){ key=new uint64_t[N](); val=new uint8_t[N](); used=new uint32_t[N]; n=0; full=false; }
  void clear(){ for(size_t i=0;i<n;i++){ key[used[i]]=0; val[used[i]]=0; } n=0; full=false; }
  uint8_t*at(uint64_t w,bool add){ size_t i=(w*0x9e3779b97f4a7c15ull)>>44; while(key[i]){ if(key[i]==w) return val+i; i=(i+1)&(N-1); } if(!add) return nullptr; if(n>N*3/4){ full=true; return nullptr; } key[i]=w; used[n++]=(uint32_t)i; return val+i; }
};
// the program's static data: put back before every execution, so that each starts like a new process
extern "C" char __data_start[],_end[];
struct Image { char*copy; size_t n; Image(){ n=_end-__data_start; copy=(char*)malloc(n); memcpy(copy,__data_start,n); } void restore(){ memcpy(__data_start,copy,n); } };
