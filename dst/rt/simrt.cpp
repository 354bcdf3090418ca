// Simulated OpenMP / offload runtime used in place of libgomp and libtsan.
//
// batoid's C++ is compiled with -fopenmp -fsanitize=thread and linked against THIS file instead
// of libgomp/libtsan.  Every memory access, atomic, lock, barrier and worksharing call of a team
// member is therefore a scheduling point that a seeded scheduler owns.  Team members are real OS
// threads (so thread_local etc. behave), but exactly one of them runs at any instant: the one
// holding the baton.  One seed decides who is granted, who runs, when they are preempted.
//
// Exports (default visibility) a small C API, dst_*, used from Python through ctypes.
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <cstdio>
#include <cerrno>
#include <climits>
#include <vector>
#include <map>
#include <unordered_map>
#include <new>
#include <algorithm>
#include <pthread.h>
#include <unistd.h>
#include <sys/syscall.h>
#include <linux/futex.h>

#define API extern "C" __attribute__((visibility("default")))
#define HID extern "C" __attribute__((visibility("hidden")))
typedef uint64_t u64; typedef uint32_t u32; typedef uint8_t u8;

extern "C" {
int __real_pthread_mutex_lock(pthread_mutex_t*); int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __real_pthread_mutex_trylock(pthread_mutex_t*);
extern char __dso_handle;
}
// our own containers must not recurse into the instrumented operator new below
template<class T> struct RA {
    typedef T value_type; RA(){} template<class U> RA(const RA<U>&){}
    T* allocate(size_t n){ void* p=malloc(n*sizeof(T)); if(!p) abort(); return (T*)p; }
    void deallocate(T* p,size_t){ free(p); }
    template<class U> bool operator==(const RA<U>&) const {return true;}
    template<class U> bool operator!=(const RA<U>&) const {return false;}
};
template<class T> using Vec=std::vector<T,RA<T>>;
template<class K,class V> using HMap=std::unordered_map<K,V,std::hash<K>,std::equal_to<K>,RA<std::pair<const K,V>>>;
template<class K,class V> using OMap=std::map<K,V,std::less<K>,RA<std::pair<const K,V>>>;

static inline u64 mix(u64 z){ z+=0x9e3779b97f4a7c15ull; z=(z^(z>>30))*0xbf58476d1ce4e5b9ull; z=(z^(z>>27))*0x94d049bb133111ebull; return z^(z>>31);}
struct Rng{ u64 s; u64 next(){ s+=0x9e3779b97f4a7c15ull; u64 z=s; z=(z^(z>>30))*0xbf58476d1ce4e5b9ull; z=(z^(z>>27))*0x94d049bb133111ebull; return z^(z>>31);} 
    u32 below(u32 n){ return n<=1?0:(u32)(next()%n);} double u(){return (next()>>11)*(1.0/9007199254740992.0);} };

enum { MAXT=64, POOL=48 };
enum Strategy { ST_SERIAL=0, ST_RANDOM=1, ST_PCT=2, ST_RR=3, ST_PERM=4, ST_SCRIPT=5 };
struct Cfg {           // mirrored in python (ctypes)
    u64 seed;
    int32_t strategy;  // Strategy
    int32_t grant;     // 0: grant what was asked (up to POOL); 1: random 1..asked; k>=2: at most k-1
    int32_t gap;       // mean accesses between preemptions (ST_RANDOM), quantum (ST_RR)
    int32_t race;      // happens-before race detection on
    int32_t memchk;    // check accesses against poisoned memory
    int32_t hidden_cap;// ICV: omp_get_max_threads
    int32_t maxsteps;  // unused if 0
    int32_t teams;     // number of teams in the simulated device
};
struct Stats {
    u64 regions, parallel_regions, requested, granted, reduced_grants, steps, switches, races, poison, 
        max_requested, max_granted, barriers, atomics, locks, stalls, sched_hash, deadlocks,
        tgt_kernels, tgt_maps, tgt_h2d, tgt_d2h, tgt_bytes, tgt_viol, teams, team_hash, new_calls, new_fail, nested, dyn_chunks, guard_inits;
};
struct Ev { u32 region; u32 to; u64 step; u64 kind; };   // kind 0 start,1 preempt,2 finish,3 block,4 grant(to=n)
struct Race { u64 pc1,pc2,addr; u32 tid1,tid2,w1,w2,region,size; };
struct Viol { u64 kind, pc, addr, size, info; };

static Cfg C = {0,ST_SERIAL,0,50,0,0,8,0,2};
static Stats G;
static Vec<Ev>* LOG; static Vec<Race>* RACES; static Vec<Viol>* VIOLS; static Vec<Ev>* SCRIPT; 
static int logging=0;

struct Member {
    int tid=0; u32 vc[MAXT]; volatile int run=0; bool done=true; int blocked=0; 
    char *slo=nullptr,*shi=nullptr; pthread_t th; bool alive=false; u64 prio=0; int stalled=0;
    int uid=0;  // unique id in the happens-before relation (team*K+tid)
    long loop_idx=0, single_idx=0, section_idx=0;
    void(*fn)(void*)=nullptr; void* data=nullptr; u32 pend=0;
    long cur_lo=0,cur_hi=0;
};
struct Loop { bool init; long long lo,hi,incr,chunk; long long next; int kind; int left; };
static Member* M[POOL];
static __thread Member* me=nullptr;
static __thread int serial_depth=0;
static constinit struct Team {
    volatile bool active=false; int n=0; u64 step=0, nextsw=0; u32 region=0; Rng rng{0}; int ndone=0;
    u32 barrier_gen=0; int barrier_cnt=0; u32 barvc[MAXT]={0};
    Vec<Loop>* loops=nullptr; Vec<int>* singles=nullptr; int owner_pid=0; long sect_n=0; u64 pctpts[8]={0}; int npct=0;
    void* copyprivate=nullptr; int unfinished_spin=0; long ordered_next=0; size_t script_pos=0;
} T;
static u32 region_counter=0;
static int forked_pid=0;

// ---------------------------------------------------------------- futex baton
static void fwait(volatile int* p){ while(!__atomic_load_n(p,__ATOMIC_ACQUIRE)) syscall(SYS_futex,p,FUTEX_WAIT_PRIVATE,0,0,0,0); __atomic_store_n(p,0,__ATOMIC_RELEASE);} 
static void fpost(volatile int* p){ __atomic_store_n(p,1,__ATOMIC_RELEASE); syscall(SYS_futex,p,FUTEX_WAKE_PRIVATE,1,0,0,0);} 

static void die(const char* what){ fprintf(stderr,"DST-FATAL: %s\n",what); fflush(stderr); _exit(97); }

// ---------------------------------------------------------------- shadow memory (races)
struct Acc { u32 uid, clk; u8 mask, w; u64 pc; };
struct Cell { Acc a[6]; u8 n=0; };
static HMap<u64,Cell>* SH;
static int in_target=0;
static inline u64 relpc(void* p){ return (u64)p-(u64)&__dso_handle; }
static void shadow_clear(u64 lo,u64 n){ if(!SH||SH->empty()||!n) return; 
    if(n>(1u<<16)){ for(auto it=SH->begin();it!=SH->end();){ u64 ad=it->first<<3; if(ad+8>lo&&ad<lo+n) it=SH->erase(it); else ++it;} return; }
    for(u64 g=lo>>3; g<=(lo+n-1)>>3; g++) SH->erase(g); }
static void race_check(u64 addr,u32 size,bool w,u64 pc){
    u64 end=addr+size;
    for(u64 g=addr>>3; g<=(end-1)>>3; g++){
        u64 lo=std::max(addr,g<<3), hi=std::min(end,(g+1)<<3);
        u8 mask=(u8)(((1u<<(hi-lo))-1)<<(lo&7));
        Cell& c=(*SH)[g]; int free_=-1; bool stored=false;
        for(int i=0;i<c.n;i++){ Acc& a=c.a[i];
            if(a.uid==(u32)me->uid){ if(a.w==(w?1:0)){ a.mask|=mask; a.clk=me->vc[me->uid]; a.pc=pc; stored=true;} continue; }
            bool hb = a.clk<=me->vc[a.uid];
            if(!hb && (a.mask&mask) && (w||a.w)){
                G.races++;
                if(RACES->size()<64){ bool dup=false; for(auto&r:*RACES) if((r.pc1==a.pc&&r.pc2==pc)||(r.pc1==pc&&r.pc2==a.pc)){dup=true;break;}
                    if(!dup) RACES->push_back(Race{a.pc,pc,addr,a.uid,(u32)me->uid,a.w,(u32)(w?1:0),T.region,size}); }
            }
            if(hb) free_=i;
        }
        if(!stored){ Acc na{(u32)me->uid,me->vc[me->uid],mask,(u8)(w?1:0),pc};
            if(c.n<6) c.a[c.n++]=na; else c.a[free_>=0?free_:(int)(T.rng.s%6)]=na; }
    }
}

// ---------------------------------------------------------------- poisoned memory
struct Range{ u64 hi; int kind; };   // kind 1 freed, 2 redzone
static OMap<u64,Range>* POI;
static pthread_mutex_t memlock=PTHREAD_MUTEX_INITIALIZER;
static void poison(u64 lo,u64 n,int kind){ if(n){ (*POI)[lo]=Range{lo+n,kind}; } }
static void unpoison(u64 lo){ POI->erase(lo); }
static void poison_check(u64 addr,u32 size,bool w,u64 pc){
    if(POI->empty()) return;
    auto it=POI->upper_bound(addr+size-1); if(it==POI->begin()) return; --it;
    if(it->second.hi>addr){ G.poison++; if(VIOLS->size()<64){ for(auto&v:*VIOLS) if(v.pc==pc&&v.kind==(u64)(10+it->second.kind)) return; VIOLS->push_back(Viol{(u64)(10+it->second.kind),pc,addr,size,(u64)(w?1:0)}); } }
}

// ---------------------------------------------------------------- host/device address spaces
struct DMap{ u64 hi; u64 dev; long ref; };
static OMap<u64,DMap>* DM;      // host lo -> mapping
static OMap<u64,u64>* HOSTOBJ;  // host heap objects from operator new outside target
static OMap<u64,u64>* DEVMEM;   // device memory blocks lo->hi
static void dviol(u64 kind,u64 pc,u64 addr,u64 size,u64 info){ G.tgt_viol++; if(VIOLS->size()<64){ for(auto&v:*VIOLS) if(v.pc==pc&&v.kind==kind) return; VIOLS->push_back(Viol{kind,pc,addr,size,info}); } }
static void target_check(u64 addr,u32 size,bool w,u64 pc){
    if(in_target){
        auto it=DM->upper_bound(addr); if(it!=DM->begin()){ --it; if(addr<it->second.hi) { dviol(20,pc,addr,size,w); return; } }
        auto jt=HOSTOBJ->upper_bound(addr); if(jt!=HOSTOBJ->begin()){ --jt; if(addr<jt->second) { dviol(21,pc,addr,size,w); return; } }
    } else {
        auto it=DEVMEM->upper_bound(addr); if(it!=DEVMEM->begin()){ --it; if(addr<it->second) dviol(22,pc,addr,size,w); }
    }
}

// ---------------------------------------------------------------- scheduling
static void logev(u32 to,u64 kind){ if(logging&&LOG->size()<(1u<<21)) LOG->push_back(Ev{T.region,to,T.step,kind}); G.sched_hash=mix(G.sched_hash^((u64)to<<40)^(kind<<56)^T.step); }
static u64 draw_gap(){ if(C.gap<=1) return 1; double u=T.rng.u(); double g=1; // geometric, capped
    g = 1 + (-__builtin_log(1-u))*(C.gap-1); double cap=C.gap*8.0+64; return (u64)(g>cap?cap:g); }
static bool runnable(int i){ return !M[i]->done && !M[i]->blocked; }
static int pick(int exclude,bool forced){
    int cand[POOL],n=0; for(int i=0;i<T.n;i++) if(i!=exclude&&runnable(i)) cand[n++]=i;
    if(!n) return -1;
    switch(C.strategy){
        case ST_RR: { for(int k=1;k<=T.n;k++){ int i=((me?me->tid:0)+k)%T.n; if(i!=exclude&&runnable(i)) return i; } return cand[0]; }
        case ST_PCT: case ST_PERM: { int b=cand[0]; for(int k=1;k<n;k++) if(M[cand[k]]->prio>M[b]->prio) b=cand[k]; return b; }
        case ST_SCRIPT: case ST_SERIAL: return cand[0];
        default: return cand[T.rng.below(n)];
    }
}
static void set_next(){
    switch(C.strategy){
        case ST_RANDOM: T.nextsw=T.step+draw_gap(); break;
        case ST_RR: T.nextsw=T.step+(C.gap>0?C.gap:1); break;
        case ST_PCT: { u64 nx=~0ull; for(int i=0;i<T.npct;i++) if(T.pctpts[i]>T.step&&T.pctpts[i]<nx) nx=T.pctpts[i]; 
                       u64 fair=T.step+200000; T.nextsw=nx<fair?nx:fair; break; }
        case ST_SCRIPT: { T.nextsw=T.step+2000000; for(size_t k=T.script_pos;k<SCRIPT->size();k++){ Ev&e=(*SCRIPT)[k]; if(e.region==T.region&&e.kind==1&&e.step>T.step){ T.nextsw=std::min<u64>(T.nextsw,e.step); break;} if(e.region>T.region) break; } break; }
        default: T.nextsw=T.step+2000000;  // fairness bound
    }
}
static int scripted(u64 kind){ for(auto&e:*SCRIPT) if(e.region==T.region&&e.step==T.step&&e.kind==kind&&(int)e.to<T.n&&runnable(e.to)) return (int)e.to; return -1; }
static void handoff(int to){ Member* m=me; if(M[to]==m) return; G.switches++; fpost(&M[to]->run); fwait(&m->run); }
static void preempt(){
    int to=-1;
    if(C.strategy==ST_SCRIPT) to=scripted(1);
    else if(C.strategy==ST_PCT){ bool hit=false; for(int i=0;i<T.npct;i++) if(T.pctpts[i]==T.step){ me->prio=i; hit=true; }
        if(!hit){ me->prio=0; } to=pick(-1,false); G.stalls++; }
    else if(C.strategy==ST_RANDOM||C.strategy==ST_RR) to=pick(me->tid,false);
    else to=pick(me->tid,false);
    if(to>=0&&to!=me->tid){ logev(to,1); set_next(); handoff(to); set_next(); }
    else set_next();
}
static inline void step(){ if(++T.step>=T.nextsw) preempt(); }
// cooperative blocking: cond() is re-evaluated each time this member gets the baton
template<class F> static void block_until(F cond){
    int spins=0;
    while(!cond()){
        me->blocked=1; int to=-1;
        if(C.strategy==ST_SCRIPT) to=scripted(3);
        if(to<0) to=pick(me->tid,true);
        if(to<0){ // everybody else is done or blocked: unblock all and give a chance; after a while: deadlock
            for(int i=0;i<T.n;i++) M[i]->blocked=0;
            if(++T.unfinished_spin>4*T.n+16){ G.deadlocks++; die("deadlock: no team member can make progress"); }
            to=pick(me->tid,true); if(to<0){ if(!cond()) { G.deadlocks++; die("deadlock: sole member blocked"); } break; }
        }
        logev(to,3); handoff(to); me->blocked=0; if(++spins>1000000) die("livelock");
    }
    me->blocked=0; T.unfinished_spin=0; for(int i=0;i<T.n;i++) M[i]->blocked=0; set_next();
}
static void vc_join(u32* a,const u32* b){ for(int i=0;i<MAXT;i++) if(b[i]>a[i]) a[i]=b[i]; }
typedef struct { u32 v[MAXT]; } SyncVC;
static HMap<u64,SyncVC>* SYNC;
static SyncVC& syncvc(u64 k){ auto it=SYNC->find(k); if(it==SYNC->end()){ SyncVC z; memset(&z,0,sizeof z); it=SYNC->emplace(k,z).first; } return it->second; }
static void acq(u64 k){ if(me) vc_join(me->vc,syncvc(k).v); }
static void rel(u64 k){ if(me){ vc_join(syncvc(k).v,me->vc); me->vc[me->uid]++; } }

static void access(void* p,u32 size,bool w,void* pc){
    u64 a=(u64)p;
    if(C.memchk&1){ pthread_mutex_t* l=&memlock; __real_pthread_mutex_lock(l); poison_check(a,size,w,relpc(pc)); __real_pthread_mutex_unlock(l); }
    if(!DEVMEM) return;
    if(C.memchk&2) target_check(a,size,w,relpc(pc));
    if(!me||!T.active) return;
    if((char*)p>=me->slo&&(char*)p<me->shi) return;   // private stack
    step();
    if(C.race) race_check(a,size,w,relpc(pc));
}
static inline bool hot(){ return C.memchk || me; }
#define RA0 __builtin_return_address(0)
#define RW(N) HID void __tsan_read##N(void*p){ if(hot()) access(p,N,false,RA0);} HID void __tsan_write##N(void*p){ if(hot()) access(p,N,true,RA0);} \
  HID void __tsan_unaligned_read##N(void*p){ if(hot()) access(p,N,false,RA0);} HID void __tsan_unaligned_write##N(void*p){ if(hot()) access(p,N,true,RA0);} \
  HID void __tsan_volatile_read##N(void*p){ if(hot()) access(p,N,false,RA0);} HID void __tsan_volatile_write##N(void*p){ if(hot()) access(p,N,true,RA0);}
RW(1) RW(2) RW(4) RW(8) RW(16)
HID void __tsan_read_range(void*p,size_t n){ if(n&&hot()) access(p,(u32)n,false,RA0);} 
HID void __tsan_write_range(void*p,size_t n){ if(n&&hot()) access(p,(u32)n,true,RA0);} 
HID void __tsan_vptr_update(void**p,void*v){ if(hot()) access(p,8,true,RA0);} 
HID void __tsan_vptr_read(void**p){ if(hot()) access(p,8,false,RA0);} 
HID void __tsan_init(){} HID void __tsan_func_entry(void*){} HID void __tsan_func_exit(){} 
HID void __tsan_ignore_thread_begin(){} HID void __tsan_ignore_thread_end(){}
HID void* __tsan_memcpy(void*d,const void*s,size_t n){ if(n&&hot()){ access((void*)s,(u32)n,false,RA0); access(d,(u32)n,true,RA0);} return memcpy(d,s,n);} 
HID void* __tsan_memset(void*d,int c,size_t n){ if(n&&hot()) access(d,(u32)n,true,RA0); return memset(d,c,n);} 
HID void* __tsan_memmove(void*d,const void*s,size_t n){ if(n&&hot()){ access((void*)s,(u32)n,false,RA0); access(d,(u32)n,true,RA0);} return memmove(d,s,n);} 

static inline void at_pre(void* a){ if(me&&T.active){ G.atomics++; step(); } }
static inline void at_post(void* a){ if(me&&T.active&&C.race){ acq((u64)a); rel((u64)a);} }
#define ATOM(BITS,TY) \
HID TY __tsan_atomic##BITS##_load(const volatile TY*a,int){ at_pre((void*)a); TY v=__atomic_load_n(a,__ATOMIC_SEQ_CST); at_post((void*)a); return v;} \
HID void __tsan_atomic##BITS##_store(volatile TY*a,TY v,int){ at_pre((void*)a); at_post((void*)a); __atomic_store_n(a,v,__ATOMIC_SEQ_CST);} \
HID TY __tsan_atomic##BITS##_exchange(volatile TY*a,TY v,int){ at_pre((void*)a); at_post((void*)a); return __atomic_exchange_n(a,v,__ATOMIC_SEQ_CST);} \
HID TY __tsan_atomic##BITS##_fetch_add(volatile TY*a,TY v,int){ at_pre((void*)a); at_post((void*)a); return __atomic_fetch_add(a,v,__ATOMIC_SEQ_CST);} \
HID TY __tsan_atomic##BITS##_fetch_sub(volatile TY*a,TY v,int){ at_pre((void*)a); at_post((void*)a); return __atomic_fetch_sub(a,v,__ATOMIC_SEQ_CST);} \
HID TY __tsan_atomic##BITS##_fetch_and(volatile TY*a,TY v,int){ at_pre((void*)a); at_post((void*)a); return __atomic_fetch_and(a,v,__ATOMIC_SEQ_CST);} \
HID TY __tsan_atomic##BITS##_fetch_or(volatile TY*a,TY v,int){ at_pre((void*)a); at_post((void*)a); return __atomic_fetch_or(a,v,__ATOMIC_SEQ_CST);} \
HID TY __tsan_atomic##BITS##_fetch_xor(volatile TY*a,TY v,int){ at_pre((void*)a); at_post((void*)a); return __atomic_fetch_xor(a,v,__ATOMIC_SEQ_CST);} \
HID TY __tsan_atomic##BITS##_fetch_nand(volatile TY*a,TY v,int){ at_pre((void*)a); at_post((void*)a); return __atomic_fetch_nand(a,v,__ATOMIC_SEQ_CST);} \
HID int __tsan_atomic##BITS##_compare_exchange_strong(volatile TY*a,TY*c,TY v,int,int){ at_pre((void*)a); at_post((void*)a); return __atomic_compare_exchange_n(a,c,v,false,__ATOMIC_SEQ_CST,__ATOMIC_SEQ_CST);} \
HID int __tsan_atomic##BITS##_compare_exchange_weak(volatile TY*a,TY*c,TY v,int,int){ at_pre((void*)a); at_post((void*)a); return __atomic_compare_exchange_n(a,c,v,false,__ATOMIC_SEQ_CST,__ATOMIC_SEQ_CST);} \
HID TY __tsan_atomic##BITS##_compare_exchange_val(volatile TY*a,TY c,TY v,int,int){ at_pre((void*)a); at_post((void*)a); __atomic_compare_exchange_n(a,&c,v,false,__ATOMIC_SEQ_CST,__ATOMIC_SEQ_CST); return c;}
ATOM(8,u8) ATOM(16,uint16_t) ATOM(32,u32) ATOM(64,u64)
HID void __tsan_atomic_thread_fence(int){ if(me&&T.active){ step(); acq(1); rel(1);} }
HID void __tsan_atomic_signal_fence(int){}

// ---------------------------------------------------------------- locks
static HMap<u64,int>* HELD;  // lock id -> holder uid+1
static void lk(u64 id){ if(!me||!T.active) return; G.locks++; step(); block_until([&]{ auto it=HELD->find(id); return it==HELD->end()||it->second==0; }); (*HELD)[id]=me->uid+1; acq(id); }
static void unlk(u64 id){ if(!me||!T.active) return; rel(id); (*HELD)[id]=0; step(); }
HID void GOMP_atomic_start(){ lk(11);} HID void GOMP_atomic_end(){ unlk(11);} 
HID void GOMP_critical_start(){ lk(12);} HID void GOMP_critical_end(){ unlk(12);} 
HID void GOMP_critical_name_start(void**p){ lk((u64)p);} HID void GOMP_critical_name_end(void**p){ unlk((u64)p);} 
HID void omp_init_lock(void**){} HID void omp_destroy_lock(void**){} HID void omp_set_lock(void**p){ lk((u64)p);} HID void omp_unset_lock(void**p){ unlk((u64)p);} 
HID int omp_test_lock(void**p){ if(!me||!T.active) return 1; step(); auto it=HELD->find((u64)p); if(it!=HELD->end()&&it->second) return 0; (*HELD)[(u64)p]=me->uid+1; acq((u64)p); return 1; }
HID void omp_init_nest_lock(void**){} HID void omp_destroy_nest_lock(void**){}
HID int __wrap_pthread_mutex_lock(pthread_mutex_t*m){ if(me&&T.active){ lk((u64)m); } return __real_pthread_mutex_lock(m);} 
HID int __wrap_pthread_mutex_unlock(pthread_mutex_t*m){ int r=__real_pthread_mutex_unlock(m); if(me&&T.active) unlk((u64)m); return r;} 
HID int __wrap_pthread_mutex_trylock(pthread_mutex_t*m){ if(me&&T.active) return omp_test_lock((void**)m)?__real_pthread_mutex_lock(m):EBUSY; return __real_pthread_mutex_trylock(m);} 
extern "C" { int __real___cxa_guard_acquire(u64*); void __real___cxa_guard_release(u64*); void __real___cxa_guard_abort(u64*); }
HID int __wrap___cxa_guard_acquire(u64*g){ if(me&&T.active){ lk((u64)g); int r=__real___cxa_guard_acquire(g); if(!r) unlk((u64)g); else G.guard_inits++; return r;} return __real___cxa_guard_acquire(g);} 
HID void __wrap___cxa_guard_release(u64*g){ __real___cxa_guard_release(g); if(me&&T.active) unlk((u64)g);} 
HID void __wrap___cxa_guard_abort(u64*g){ __real___cxa_guard_abort(g); if(me&&T.active) unlk((u64)g);} 

// ---------------------------------------------------------------- memory
static struct { u32 fill_seed; int fill; long fail_at; long fail_every; int quarantine; int guard; long count; int enabled; int freepoison; } MC={0,0,-1,0,0,0,0,0,0};
static OMap<u64,u64>* BLK;   // live tracked blocks
static Vec<std::pair<u64,u64>>* QUAR; static u64 quar_bytes=0;
static void fillmem(void*p,size_t n,u64 salt){ u8* b=(u8*)p; u64 s=mix(MC.fill_seed*0x9e37ull+salt); 
    switch(MC.fill){ case 1: for(size_t i=0;i<n;i++){ if((i&7)==0) s=mix(s); b[i]=(u8)(s>>((i&7)*8)); } break; // random garbage
        case 2: memset(b,0xff,n); break; // NaN doubles, true-ish bools
        case 3: { u64 v=mix(MC.fill_seed); double d=1.0+(v%1000)*1e-3; for(size_t i=0;i+8<=n;i+=8) memcpy(b+i,&d,8); for(size_t i=n&~7ull;i<n;i++) b[i]=1; break; } // plausible numbers
        case 4: memset(b,0,n); break; } }
static void* tmalloc(size_t n,bool zero){
    if(!MC.enabled) return zero?calloc(1,n?n:1):malloc(n);
    size_t g=MC.guard; u8* base=(u8*)malloc(n+2*g+16); if(!base) return nullptr;
    u8* p=base+g; p=(u8*)(((u64)p+15)&~15ull);
    __real_pthread_mutex_lock(&memlock);
    MC.count++;
    if(zero) memset(p,0,n); else fillmem(p,n,MC.count);
    size_t front=p-base; fillmem(base,front,MC.count*7+1); size_t back=(base+n+2*g+16)-(p+n); fillmem(p+n,back,MC.count*7+3);
    (*BLK)[(u64)p]=n|((u64)front<<48);
    if(g){ poison((u64)base,front,2); poison((u64)p+n,back,2); }
    __real_pthread_mutex_unlock(&memlock);
    if(me) shadow_clear((u64)p,n);
    return p;
}
static void quar_drain(u64 limit){ while(quar_bytes>limit&&!QUAR->empty()){ auto q=QUAR->front(); QUAR->erase(QUAR->begin()); quar_bytes-=q.second&0xffffffffffffull; u64 n=q.second&0xffffffffffffull; (void)n; unpoison(q.first); free((void*)(q.first-(q.second>>48))); } }
static void tfree(void*p){
    if(!p) return;
    __real_pthread_mutex_lock(&memlock);
    auto it=BLK->find((u64)p);
    if(it==BLK->end()){ __real_pthread_mutex_unlock(&memlock); if(me) shadow_clear((u64)p,8); free(p); return; }
    u64 n=it->second&0xffffffffffffull, front=it->second>>48; BLK->erase(it);
    u64 base=(u64)p-front; unpoison(base); unpoison((u64)p+n);
    if(MC.freepoison) fillmem(p,n,(u64)n*31+7);
    if(MC.quarantine){ poison((u64)p,n?n:1,1); QUAR->push_back({(u64)p,n|(front<<48)}); quar_bytes+=n; quar_drain((u64)MC.quarantine); 
        if(QUAR->size()>20000) quar_drain(0);}
    else free((void*)base);
    __real_pthread_mutex_unlock(&memlock);
    if(me) shadow_clear((u64)p,n?n:1);
}
static long np_fail_at=-1, np_counter=0, np_failed=0;
static bool np_fails(){ if(me) return false; long k=np_counter++; if(np_fail_at>=0&&k==np_fail_at){ np_failed++; return true; } return false; }
static void* np_malloc(void*,size_t n){ return np_fails()?nullptr:tmalloc(n,false);} 
static void* np_calloc(void*,size_t a,size_t b){ return np_fails()?nullptr:tmalloc(a*b,true);} 
static void np_free(void*,void*p,size_t){ tfree(p);} 
static void* np_realloc(void*,void*p,size_t n){ if(!p) return tmalloc(n,false); u64 old=0; __real_pthread_mutex_lock(&memlock); auto it=BLK->find((u64)p); bool t=it!=BLK->end(); if(t) old=it->second&0xffffffffffffull; __real_pthread_mutex_unlock(&memlock);
    if(!t){ return realloc(p,n);} void*q=tmalloc(n,false); if(q){ memcpy(q,p,old<n?old:n); tfree(p);} return q; }
struct NpAlloc { void* ctx; void*(*m)(void*,size_t); void*(*c)(void*,size_t,size_t); void*(*r)(void*,void*,size_t); void(*f)(void*,void*,size_t); };
struct NpHandler { char name[127]; u8 version; NpAlloc a; };
static NpHandler NPH={"dst_sim_allocator",1,{nullptr,np_malloc,np_calloc,np_realloc,np_free}};
API void* dst_np_handler(){ return &NPH; }

static long new_fail_at=-1, new_counter=0; static int trackobj=0;
static void* op_new(size_t n){
    G.new_calls++; new_counter++;
    if(new_fail_at>=0 && new_counter-1==new_fail_at){ G.new_fail++; throw std::bad_alloc(); }
    void* p=tmalloc(n?n:1,false); if(!p) throw std::bad_alloc();
    if(me&&!MC.enabled) shadow_clear((u64)p,n);
    if(trackobj&&HOSTOBJ){ if(in_target) (*DEVMEM)[(u64)p]=(u64)p+n; else (*HOSTOBJ)[(u64)p]=(u64)p+n; }
    return p;
}
static void op_del(void*p){ if(!p) return; if(trackobj&&HOSTOBJ){ HOSTOBJ->erase((u64)p); DEVMEM->erase((u64)p);} if(me&&!MC.enabled) shadow_clear((u64)p,8); tfree(p);} 
static void* py_new(size_t n){   // allocations made by binding code (pysrc) are plain: pybind11 itself aborts when one of its own fails
    G.new_calls++;
    void* p=tmalloc(n?n:1,false); if(!p) throw std::bad_alloc();
    if(trackobj&&HOSTOBJ) (*HOSTOBJ)[(u64)p]=(u64)p+n;
    return p;
}
// objcopy renames the allocation symbols of src/*.o to dst_src_* and of pysrc/*.o to dst_py_*
HID void* dst_src__Znwm(size_t n){ return op_new(n);} HID void* dst_src__Znam(size_t n){ return op_new(n);} 
HID void dst_src__ZdlPv(void*p){ op_del(p);} HID void dst_src__ZdaPv(void*p){ op_del(p);} HID void dst_src__ZdlPvm(void*p,size_t){ op_del(p);} HID void dst_src__ZdaPvm(void*p,size_t){ op_del(p);} 
HID void* dst_src_malloc(size_t n){ return tmalloc(n,false);} HID void dst_src_free(void*p){ tfree(p);} 
HID void* dst_src_calloc(size_t a,size_t b){ return tmalloc(a*b,true);} HID void* dst_src_realloc(void*p,size_t n){ return np_realloc(nullptr,p,n);} 
HID void* dst_py__Znwm(size_t n){ return py_new(n);} HID void* dst_py__Znam(size_t n){ return py_new(n);} 
HID void dst_py__ZdlPv(void*p){ op_del(p);} HID void dst_py__ZdaPv(void*p){ op_del(p);} HID void dst_py__ZdlPvm(void*p,size_t){ op_del(p);} HID void dst_py__ZdaPvm(void*p,size_t){ op_del(p);} 

// ---------------------------------------------------------------- team execution
static void reset_after_fork(){ for(int i=0;i<POOL;i++){ if(M[i]) M[i]->alive=false; } T.active=false; }
static bool member_finish(){
    Member* m=me; m->done=true; T.ndone++;
    if(T.ndone==T.n) return true;       // last one: caller decides
    int to=-1; if(C.strategy==ST_SCRIPT) to=scripted(2);
    if(to<0) to=pick(m->tid,true);
    if(to<0){ for(int i=0;i<T.n;i++) M[i]->blocked=0; to=pick(m->tid,true);} 
    if(to<0) die("no runnable member at finish");
    logev(to,2); set_next(); G.switches++; fpost(&M[to]->run); return false;
}
static volatile int master_wake=0;
static void* worker(void* arg){
    Member* m=(Member*)arg; me=nullptr;
    pthread_attr_t at; pthread_getattr_np(pthread_self(),&at); void* lo; size_t sz; pthread_attr_getstack(&at,&lo,&sz); pthread_attr_destroy(&at);
    m->slo=(char*)lo; m->shi=(char*)lo+sz;
    for(;;){ fwait(&m->run); me=m; m->fn(m->data); bool last=member_finish(); me=nullptr; if(last) fpost(&master_wake); }
    return nullptr;
}
static void ensure_pool(int n){
    if(forked_pid!=getpid()){ reset_after_fork(); forked_pid=getpid(); }
    for(int i=0;i<n;i++){ if(!M[i]){ M[i]=(Member*)malloc(sizeof(Member)); new((void*)M[i]) Member(); M[i]->tid=i; }
        if(i&&!M[i]->alive){ M[i]->run=0; M[i]->alive=true; pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a,1<<20); pthread_attr_setdetachstate(&a,PTHREAD_CREATE_DETACHED); if(pthread_create(&M[i]->th,&a,worker,M[i])) die("pthread_create"); pthread_attr_destroy(&a);
            while(!__atomic_load_n(&M[i]->slo,__ATOMIC_ACQUIRE)) sched_yield(); } }
}
static int cur_team=0,nteams=0; static u32 teamvc[8][MAXT];
static unsigned decide_grant(unsigned req,Rng& r){
    unsigned q=req; if(q==0) q=C.hidden_cap>0?C.hidden_cap:1; if(q>POOL) q=POOL; unsigned n=q;
    if(C.strategy==ST_SERIAL) n=1;
    else if(C.strategy==ST_SCRIPT){ n=1; for(auto&e:*SCRIPT) if(e.kind==4&&e.region==T.region) n=e.to; if(n<1) n=1; if(n>POOL) n=POOL; }
    else if(C.grant==1) n=1+r.below(q);
    else if(C.grant>=2) n=std::min<unsigned>(q,C.grant-1);
    if(in_target&&n>8) n=8;
    return n;
}
static void run_team(void(*fn)(void*),void*data,unsigned req){
    G.regions++; G.requested+=req; if(req>G.max_requested) G.max_requested=req;
    u32 myregion=region_counter;
    if(me||T.active||serial_depth){ // nested, or another caller thread inside a region: serialised
        G.nested++; serial_depth++; Member* sv=me; fn(data); me=sv; serial_depth--; return; }
    region_counter++;
    Rng r{mix(C.seed*0x2545F4914F6CDD1Dull ^ mix(myregion+1))};
    T.region=myregion; T.step=0;
    unsigned n=decide_grant(req,r);
    if(C.strategy!=ST_SERIAL&&logging) LOG->push_back(Ev{myregion,n,0,4});
    G.granted+=n; if(n>G.max_granted) G.max_granted=n; { unsigned q=req?req:C.hidden_cap; if(n<q&&C.strategy!=ST_SERIAL) G.reduced_grants++; }
    if(n<=1&&!in_target){ serial_depth++; fn(data); serial_depth--; return; }
    ensure_pool(n); if(n>1) G.parallel_regions++;
    T.n=n; T.rng=r; T.ndone=0; T.barrier_cnt=0; T.barrier_gen=0; memset(T.barvc,0,sizeof T.barvc); T.loops->clear(); T.singles->clear(); T.sect_n=0; T.unfinished_spin=0; T.ordered_next=0;
    if(!in_target){ SH->clear(); SYNC->clear(); } HELD->clear();
    char* frame=(char*)__builtin_frame_address(0);
    pthread_attr_t at; pthread_getattr_np(pthread_self(),&at); void* lo; size_t sz; pthread_attr_getstack(&at,&lo,&sz); pthread_attr_destroy(&at);
    M[0]->slo=(char*)lo; M[0]->shi=frame;
    int uidbase = in_target? (cur_team*8)%MAXT : 0;
    for(unsigned i=0;i<n;i++){ Member*m=M[i]; memset(m->vc,0,sizeof m->vc); m->uid=(uidbase+i)%MAXT; m->vc[m->uid]=1; m->done=false; m->blocked=0; m->fn=fn; m->data=data; m->prio=100+T.rng.below(1000000); m->loop_idx=m->single_idx=m->section_idx=0; m->run=0; }
    if(in_target){ static u32 epoch=1; epoch++; for(unsigned i=0;i<n;i++){ memcpy(M[i]->vc,teamvc[cur_team&7],sizeof M[i]->vc); M[i]->vc[M[i]->uid]=epoch; } }
    if(C.strategy==ST_PCT){ T.npct=1+T.rng.below(6); for(int i=0;i<T.npct;i++){ u64 hz=(u64)1<<(3+T.rng.below(13)); T.pctpts[i]=1+T.rng.next()%hz; } }
    T.script_pos=0;
    master_wake=0; T.active=true; set_next();
    me=M[0];
    int first=-1; if(C.strategy==ST_SCRIPT) first=scripted(0); if(first<0) first=(C.strategy==ST_SCRIPT||C.strategy==ST_SERIAL)?0:pick(-1,true);
    logev(first,0);
    if(first!=0){ handoff(first);} 
    fn(data);
    bool lastm=member_finish(); me=nullptr;
    if(!lastm) fwait(&master_wake); 
    if(in_target) for(unsigned i=0;i<n;i++) vc_join(teamvc[cur_team&7],M[i]->vc);
    T.active=false; G.steps+=T.step; G.team_hash=mix(G.team_hash^n);
}
HID void GOMP_parallel(void(*fn)(void*),void*data,unsigned n,unsigned){ run_team(fn,data,n);} 
HID unsigned GOMP_parallel_reductions(void(*fn)(void*),void*data,unsigned n,unsigned){ run_team(fn,data,n); return T.n; }
HID int omp_get_num_threads(){ return me&&T.active&&!serial_depth?T.n:1; }
HID int omp_get_thread_num(){ return me&&T.active&&!serial_depth?me->tid:0; }
HID int omp_get_max_threads(){ return C.hidden_cap; } HID void omp_set_num_threads(int n){ C.hidden_cap=n; }
HID int omp_get_num_procs(){ return 8; } HID int omp_in_parallel(){ return me&&T.active&&T.n>1; } HID int omp_get_thread_limit(){ return POOL; }
HID void omp_set_dynamic(int){} HID int omp_get_dynamic(){return 0;} HID void omp_set_nested(int){} HID int omp_get_nested(){return 0;} HID int omp_get_level(){return me?1:0;} HID int omp_get_active_level(){return me?1:0;}
HID int omp_get_cancellation(){return 0;} HID double omp_get_wtime(){ return 1e-9*(double)(G.steps+T.step);} HID double omp_get_wtick(){return 1e-9;}
HID int omp_get_max_active_levels(){return 1;} HID void omp_set_max_active_levels(int){} HID int omp_get_default_device(){return 0;} HID void omp_set_default_device(int){} HID int omp_get_initial_device(){return -1;}
HID void GOMP_barrier(){ if(!me||!T.active||serial_depth) return; G.barriers++; step(); vc_join(T.barvc,me->vc); u32 gen=T.barrier_gen; if(++T.barrier_cnt==T.n){ T.barrier_cnt=0; T.barrier_gen++; for(int i=0;i<T.n;i++){ vc_join(M[i]->vc,T.barvc); M[i]->vc[M[i]->uid]++; } } else block_until([&]{return T.barrier_gen!=gen;}); }
HID bool GOMP_barrier_cancel(){ GOMP_barrier(); return false; }
HID bool GOMP_single_start(){ if(!me||!T.active||serial_depth) return true; step(); long k=me->single_idx++; if((long)T.singles->size()<=k) T.singles->resize(k+1,0); if((*T.singles)[k]) return false; (*T.singles)[k]=1; return true; }
HID void* GOMP_single_copy_start(){ if(GOMP_single_start()) return nullptr; GOMP_barrier(); return T.copyprivate; }
HID void GOMP_single_copy_end(void*d){ T.copyprivate=d; GOMP_barrier(); }
// worksharing loops -----------------------------------------------------------
enum {K_STATIC,K_DYN,K_GUIDED};
static __thread Loop serial_loop;
static void loop_begin(long long lo,long long hi,long long incr,long long chunk,int kind){
    if(!me||!T.active||serial_depth){ serial_loop=Loop{true,lo,hi,incr,chunk,lo,kind,1}; return; }
    step(); long k=me->loop_idx++; if((long)T.loops->size()<=k) T.loops->resize(k+1,Loop{}); Loop&L=(*T.loops)[k]; if(!L.init){ L=Loop{true,lo,hi,incr,chunk,lo,kind,T.n}; }
    me->pend=0;
}
static bool loop_next(long long*a,long long*b){
    bool ser=!me||!T.active||serial_depth; if(!ser) step();
    Loop& L = ser?serial_loop:(*T.loops)[me->loop_idx-1];
    long long left = L.incr>0 ? (L.hi-L.next+L.incr-1)/L.incr : (L.next-L.hi+(-L.incr)-1)/(-L.incr);
    if(ser){ if(left<=0) return false; *a=L.lo; *b=L.hi; L.next=L.hi; return true; }
    if(L.kind==K_STATIC){ long long total=L.incr>0?(L.hi-L.lo+L.incr-1)/L.incr:(L.lo-L.hi-L.incr-1)/(-L.incr); long long ch=L.chunk; if(ch<=0){ ch=(total+T.n-1)/T.n; if(ch<1) ch=1; } long long idx=(long long)(me->pend++)*T.n+me->tid; long long s=idx*ch; if(s>=total) return false; long long e=std::min(total,s+ch); *a=L.lo+s*L.incr; *b=L.lo+e*L.incr; G.dyn_chunks++; return true; }
    if(left<=0) return false; long long ch=L.chunk>0?L.chunk:1; if(L.kind==K_GUIDED){ long long q=left/T.n; if(q>ch) ch=q; } if(ch>left) ch=left; *a=L.next; *b=L.next+ch*L.incr; L.next=*b; G.dyn_chunks++; return true;
}
#define LOOPS(NAME,K) \
HID bool GOMP_loop_##NAME##_start(long lo,long hi,long inc,long ch,long*a,long*b){ loop_begin(lo,hi,inc,ch,K); long long x,y; if(!loop_next(&x,&y)) return false; *a=x;*b=y; return true;} \
HID bool GOMP_loop_##NAME##_next(long*a,long*b){ long long x,y; if(!loop_next(&x,&y)) return false; *a=x;*b=y; return true;} \
HID bool GOMP_loop_ull_##NAME##_start(bool up,u64 lo,u64 hi,u64 inc,u64 ch,u64*a,u64*b){ loop_begin((long long)lo,(long long)hi,(long long)inc,(long long)ch,K); long long x,y; if(!loop_next(&x,&y)) return false; *a=x;*b=y; return true;} \
HID bool GOMP_loop_ull_##NAME##_next(u64*a,u64*b){ long long x,y; if(!loop_next(&x,&y)) return false; *a=x;*b=y; return true;} \
struct PL_##NAME{ void(*fn)(void*); void*d; long lo,hi,inc,ch; };\
static void plrun_##NAME(void*p){ PL_##NAME*q=(PL_##NAME*)p; loop_begin(q->lo,q->hi,q->inc,q->ch,K); q->fn(q->d); } \
HID void GOMP_parallel_loop_##NAME(void(*fn)(void*),void*d,unsigned n,long lo,long hi,long inc,long ch,unsigned){ PL_##NAME q{fn,d,lo,hi,inc,ch}; run_team(plrun_##NAME,&q,n);} 
LOOPS(static,K_STATIC) LOOPS(dynamic,K_DYN) LOOPS(guided,K_GUIDED) LOOPS(nonmonotonic_dynamic,K_DYN) LOOPS(nonmonotonic_guided,K_GUIDED)
#define RLOOPS(NAME) \
HID bool GOMP_loop_##NAME##_start(long lo,long hi,long inc,long*a,long*b){ loop_begin(lo,hi,inc,1,K_DYN); long long x,y; if(!loop_next(&x,&y)) return false; *a=x;*b=y; return true;} \
HID bool GOMP_loop_##NAME##_next(long*a,long*b){ long long x,y; if(!loop_next(&x,&y)) return false; *a=x;*b=y; return true;} \
struct PL_##NAME{ void(*fn)(void*); void*d; long lo,hi,inc; };\
static void plrun_##NAME(void*p){ PL_##NAME*q=(PL_##NAME*)p; loop_begin(q->lo,q->hi,q->inc,1,K_DYN); q->fn(q->d); } \
HID void GOMP_parallel_loop_##NAME(void(*fn)(void*),void*d,unsigned n,long lo,long hi,long inc,unsigned){ PL_##NAME q{fn,d,lo,hi,inc}; run_team(plrun_##NAME,&q,n);} 
RLOOPS(runtime) RLOOPS(maybe_nonmonotonic_runtime) RLOOPS(nonmonotonic_runtime)
HID void GOMP_loop_end(){ GOMP_barrier(); } HID void GOMP_loop_end_nowait(){} HID bool GOMP_loop_end_cancel(){ GOMP_barrier(); return false; }
HID unsigned GOMP_sections_next(){ if(!me||!T.active||serial_depth){ return serial_loop.next<serial_loop.hi?(unsigned)serial_loop.next++:0; } long long a,b; return loop_next(&a,&b)?(unsigned)a:0; }
HID unsigned GOMP_sections_start(unsigned n){ loop_begin(1,(long long)n+1,1,1,K_DYN); return GOMP_sections_next(); }
struct PS{ void(*fn)(void*); void*d; unsigned n; };
static void psrun(void*p){ PS*q=(PS*)p; loop_begin(1,(long long)q->n+1,1,1,K_DYN); q->fn(q->d); }
HID void GOMP_parallel_sections(void(*fn)(void*),void*d,unsigned nt,unsigned n,unsigned){ PS q{fn,d,n}; run_team(psrun,&q,nt); }
HID void GOMP_sections_end(){ GOMP_barrier(); } HID void GOMP_sections_end_nowait(){}
HID void GOMP_ordered_start(){ } HID void GOMP_ordered_end(){ }
// tasks run undeferred (a legal schedule)
HID void GOMP_task(void(*fn)(void*),void*data,void(*cpy)(void*,void*),long sz,long al,bool,unsigned,void**,int,void*){ if(cpy){ char* b=(char*)malloc(sz+al); char* a=(char*)(((u64)b+al-1)/al*al); cpy(a,data); fn(a); free(b);} else fn(data);} 
HID void GOMP_taskwait(){} HID void GOMP_taskyield(){ if(me&&T.active) step(); } HID void GOMP_taskgroup_start(){} HID void GOMP_taskgroup_end(){} HID bool GOMP_cancel(int,bool){return false;} HID bool GOMP_cancellation_point(int){return false;}

// ---------------------------------------------------------------- simulated discrete accelerator
static u64 dev_salt=0;
static u64 dev_alloc(u64 n){ u8*p=(u8*)malloc(n+32); u64 s=mix(C.seed^mix(++dev_salt)); for(u64 i=0;i<n;i++){ if(!(i&7)) s=mix(s); p[i]=(u8)(s>>((i&7)*8)); } (*DEVMEM)[(u64)p]=(u64)p+n; return (u64)p; }
static void dev_free(u64 p){ auto it=DEVMEM->find(p); if(it!=DEVMEM->end()){ memset((void*)p,0xdb,it->second-p); DEVMEM->erase(it);} free((void*)p); }
static DMap* dm_find(u64 lo,u64 hi,u64* base){ auto it=DM->upper_bound(lo); if(it==DM->begin()) return nullptr; --it; if(lo>=it->first&&lo<it->second.hi){ *base=it->first; return &it->second; } if(hi>lo&&0) return nullptr; return nullptr; }
static bool dm_overlap(u64 lo,u64 hi){ for(auto it=DM->begin();it!=DM->end();++it){ if(it->first<hi&&lo<it->second.hi) return true; if(it->first>=hi) break; } return false; }
struct Mapped{ u64 host; u64 size; int kind; bool fresh; };
static u64 map_enter(u64 h,u64 n,int k,u64 pc){
    if(n==0) n=1; u64 base; DMap* d=dm_find(h,h+n,&base); bool to=(k&1), always=(k&16)&&(k<=19);
    if(d){ if(h+n>d->hi) dviol(30,pc,h,n,d->hi-base); d->ref++; if(to&&always){ memcpy((void*)(d->dev+(h-base)),(void*)h,n); G.tgt_h2d++; } return d->dev+(h-base); }
    if(dm_overlap(h,h+n)) dviol(31,pc,h,n,0);
    u64 dev=dev_alloc(n); (*DM)[h]=DMap{h+n,dev,1}; G.tgt_maps++; if(to){ memcpy((void*)dev,(void*)h,n); G.tgt_h2d++; G.tgt_bytes+=n; }
    return dev;
}
static void map_exit(u64 h,u64 n,int k,bool from,bool force){
    if(n==0) n=1; u64 base; DMap* d=dm_find(h,h+n,&base); if(!d) return; 
    if(force) d->ref=0; else if(d->ref>0) d->ref--;
    bool always=(k&16)&&(k<=19);
    if(from&&(d->ref==0||always)){ memcpy((void*)h,(void*)(d->dev+(h-base)),n); G.tgt_d2h++; G.tgt_bytes+=n; }
    if(d->ref==0){ dev_free(d->dev); DM->erase(base); }
}
static int dbg=0;
HID void GOMP_target_enter_exit_data(int,size_t n,void**h,size_t*sz,unsigned short*kinds,unsigned flags,void**){
    for(size_t i=0;i<n;i++){ int k=kinds[i]&0xff; if(dbg) fprintf(stderr,"enter_exit flags=%x k=%d sz=%zu\n",flags,k,sz[i]);
        switch(k){ case 0: case 1: case 128: case 129: case 17: map_enter((u64)h[i],sz[i],k&31,relpc(RA0)); break;
            case 23: map_exit((u64)h[i],sz[i],0,false,false); break; case 7: map_exit((u64)h[i],sz[i],0,false,true); break;
            case 2: case 130: case 18: map_exit((u64)h[i],sz[i],k&31,true,false); break; case 4: case 15: case 31: break; 
            default: if(k>=80) break; fprintf(stderr,"DST: unhandled enter/exit kind %d\n",k); die("map kind"); } } }
HID void GOMP_target_update_ext(int,size_t n,void**h,size_t*sz,unsigned short*kinds,unsigned,void**){
    for(size_t i=0;i<n;i++){ int k=kinds[i]&0xff; u64 base; DMap*d=dm_find((u64)h[i],(u64)h[i]+sz[i],&base); if(!d||!sz[i]) continue; u64 dv=d->dev+((u64)h[i]-base); G.tgt_bytes+=sz[i];
        if((k&3)==1){ memcpy((void*)dv,h[i],sz[i]); G.tgt_h2d++; } else if((k&3)==2){ memcpy(h[i],(void*)dv,sz[i]); G.tgt_d2h++; } } }
static int teams_total=0,team_cur=0; static int* team_perm=nullptr;
HID bool GOMP_teams4(unsigned lo,unsigned hi,unsigned,bool first){
    if(first){ Rng r{mix(C.seed^mix(0x7ea5ull+G.tgt_kernels))}; unsigned n=C.teams>0?C.teams:1; if(C.strategy!=ST_SERIAL&&C.strategy!=ST_SCRIPT) n=1+r.below(n); else n=C.strategy==ST_SERIAL?1:n; if(hi&&n>hi) n=hi; if(n<lo) n=lo; teams_total=n; team_cur=0; nteams=n; 
        static int perm[64]; if(n>8) n=teams_total=nteams=8; for(unsigned i=0;i<n;i++) perm[i]=i; if(C.strategy!=ST_SERIAL) for(unsigned i=n;i>1;i--){ unsigned j=r.below(i); std::swap(perm[i-1],perm[j]); } team_perm=perm; cur_team=perm[0]; G.teams+=n; return true; }
    if(++team_cur<teams_total){ cur_team=team_perm[team_cur]; return true; } return false; }
HID int omp_get_num_teams(){ return in_target&&nteams?nteams:1; } HID int omp_get_team_num(){ return in_target?cur_team:0; }
HID int omp_is_initial_device(){ return !in_target; } HID int omp_get_num_devices(){ return 1; }
HID void GOMP_target_ext(int,void(*fn)(void*),size_t n,void**h,size_t*sz,unsigned short*kinds,unsigned flags,void**,void**){
    u64 pc=relpc(RA0); G.tgt_kernels++; 
    void** a=(void**)malloc(sizeof(void*)*(n+1)); Vec<Mapped> ms; Vec<void*> tmp;
    for(size_t i=0;i<n;i++){ int k=kinds[i]&0xff; size_t al=(size_t)1<<(kinds[i]>>8); if(dbg) fprintf(stderr,"target k=%d sz=%zu al=%zu\n",k,sz[i],al);
        switch(k){
            case 13: case 14: a[i]=h[i]; break;                             // firstprivate int, is_device_ptr
            case 12: { void*p=malloc(sz[i]+al); void*q=(void*)(((u64)p+al-1)/al*al); memcpy(q,h[i],sz[i]); a[i]=q; tmp.push_back(p); break; }
            case 15: { u64 base; DMap*d=dm_find((u64)h[i],(u64)h[i],&base); a[i]=d?(void*)(d->dev+((u64)h[i]-base)):h[i]; break; }
            case 0: case 1: case 2: case 3: case 16: case 17: case 18: case 19: case 128: case 129: case 130: case 131: {
                a[i]=(void*)map_enter((u64)h[i],sz[i],k&31,pc); ms.push_back(Mapped{(u64)h[i],sz[i],k&31,false}); break; }
            case 4: { a[i]=h[i]; // GOMP_MAP_POINTER: attached to previous map; not used by batoid
                die("map pointer"); }
            default: if(k>=80){ a[i]=nullptr; break;} fprintf(stderr,"DST: unhandled target map kind %d\n",k); die("map kind"); } }
    int sv=in_target; in_target=1; SH->clear(); SYNC->clear(); memset(teamvc,0,sizeof teamvc); cur_team=0; nteams=1;
    fn(a);
    in_target=sv; nteams=0;
    for(size_t i=ms.size();i-->0;) map_exit(ms[i].host,ms[i].size,ms[i].kind,(ms[i].kind&2)!=0,false);
    for(void*p:tmp) free(p); free(a); (void)flags;
}
HID void GOMP_target_data_ext(int,size_t,void**,size_t*,unsigned short*){ die("target data"); }
HID void GOMP_target_end_data(){}

// ---------------------------------------------------------------- C API
static void init_all(){ if(LOG) return; 
    #define NEW(T) (new(malloc(sizeof(T))) T())
    LOG=NEW(Vec<Ev>); RACES=NEW(Vec<Race>); VIOLS=NEW(Vec<Viol>); SCRIPT=NEW(Vec<Ev>); T.loops=NEW(Vec<Loop>); T.singles=NEW(Vec<int>);
    typedef HMap<u64,Cell> A1; typedef HMap<u64,SyncVC> A2; typedef HMap<u64,int> A3; typedef OMap<u64,Range> A4; typedef OMap<u64,DMap> A5; typedef OMap<u64,u64> A6; typedef Vec<std::pair<u64,u64>> A7;
    SH=NEW(A1); SYNC=NEW(A2); HELD=NEW(A3); POI=NEW(A4); DM=NEW(A5); HOSTOBJ=NEW(A6); DEVMEM=NEW(A6); BLK=NEW(A6); QUAR=NEW(A7); forked_pid=getpid(); }
__attribute__((constructor(101))) static void ctor(){ init_all(); }
API void dst_config(const Cfg*c){ C=*c; region_counter=0; LOG->clear(); RACES->clear(); VIOLS->clear(); }
API void dst_logging(int on){ logging=on; }
API void dst_stats(Stats*s){ *s=G; }
API void dst_reset_stats(){ memset(&G,0,sizeof G); }
API u64 dst_sizes(int w){ switch(w){case 0:return sizeof(Cfg);case 1:return sizeof(Stats);case 2:return sizeof(Ev);case 3:return sizeof(Race);case 4:return sizeof(Viol);} return 0; }
API u64 dst_log(Ev*out,u64 n){ u64 m=std::min<u64>(n,LOG->size()); if(out) memcpy((void*)out,LOG->data(),m*sizeof(Ev)); return LOG->size(); }
API u64 dst_races(Race*out,u64 n){ u64 m=std::min<u64>(n,RACES->size()); if(out) memcpy((void*)out,RACES->data(),m*sizeof(Race)); return RACES->size(); }
API u64 dst_viols(Viol*out,u64 n){ u64 m=std::min<u64>(n,VIOLS->size()); if(out) memcpy((void*)out,VIOLS->data(),m*sizeof(Viol)); return VIOLS->size(); }
API void dst_script(const Ev*e,u64 n){ SCRIPT->assign(e,e+n); }
API void dst_mem(int enabled,u32 fill_seed,int fill,int guard,int quarantine,int freepoison){ __real_pthread_mutex_lock(&memlock); MC.enabled=enabled; MC.fill_seed=fill_seed; MC.fill=fill; MC.guard=guard; MC.quarantine=quarantine; MC.freepoison=freepoison; if(!quarantine) quar_drain(0); __real_pthread_mutex_unlock(&memlock); }
API void dst_new_fail(long at){ new_fail_at=at; new_counter=0; }
API void dst_np_fail(long at){ np_fail_at=at; np_counter=0; np_failed=0; }
API long dst_np_count(){ return np_counter; }
API long dst_np_failed(){ return np_failed; }
API long dst_new_count(){ return new_counter; }
API void dst_track(int on){ trackobj=on; }
API void dst_debug(int on){ dbg=on; }
API u64 dst_base(){ return (u64)&__dso_handle; }
// blocks and bytes that are allocated now (while the simulated allocator is in use), and device blocks
API void dst_live(u64*o){ u64 n=0,b=0; __real_pthread_mutex_lock(&memlock); for(auto&q:*BLK){ n++; b+=q.second&0xffffffffffffull; } __real_pthread_mutex_unlock(&memlock); o[0]=n; o[1]=b; o[2]=DEVMEM->size(); o[3]=DM->size(); }
API int dst_live_maps(){ return (int)DM->size(); }
