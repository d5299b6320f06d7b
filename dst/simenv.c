/* Preloaded seam for what a process sees of its surroundings: clocks, process
 * id and entropy.  Off until sim_env() is called (in the forked child that
 * executes a run); from then on every answer is a function of the seed.
 * Clock modes: 0 = time stands still, 1 = jumps forwards and backwards by up to
 * a day between two readings, 2 = steps of up to ten seconds, never backwards. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdint.h>
#include <string.h>
#include <sys/time.h>
#include <sys/types.h>
#include <time.h>
#include <unistd.h>

static int on = 0, mode = 0;
static uint64_t s0 = 1;
static long nclock = 0, npid = 0, nrand = 0;
static long fake_pid = 4242;
static int64_t now_ns = 0;

static uint64_t rnd(void){
    uint64_t z = (s0 += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
void sim_env(uint64_t seed, int m, int64_t start, long pid){
    s0 = seed; mode = m; now_ns = start * 1000000000ll; fake_pid = pid; nclock = npid = nrand = 0; on = 1;
}
void sim_env_off(void){ on = 0; }
long sim_env_count(int k){ return k == 0 ? nclock : k == 1 ? npid : nrand; }

static int64_t tick(void){
    nclock++;
    if(mode == 1) now_ns += (int64_t)(rnd() % 172800000000000ull) - 86400000000000ll;
    if(mode == 2) now_ns += (int64_t)(rnd() % 10000000000ull);
    if(now_ns < 0) now_ns = 0;
    return now_ns;
}
int clock_gettime(clockid_t c, struct timespec *ts){
    static int (*real)(clockid_t, struct timespec*);
    if(!real) real = dlsym(RTLD_NEXT, "clock_gettime");
    if(!on) return real(c, ts);
    int64_t t = tick();
    ts->tv_sec = t / 1000000000ll; ts->tv_nsec = t % 1000000000ll;
    return 0;
}
int gettimeofday(struct timeval *tv, void *tz){
    static int (*real)(struct timeval*, void*);
    if(!real) real = dlsym(RTLD_NEXT, "gettimeofday");
    if(!on) return real(tv, tz);
    int64_t t = tick();
    tv->tv_sec = t / 1000000000ll; tv->tv_usec = (t / 1000) % 1000000;
    return 0;
}
time_t time(time_t *p){
    static time_t (*real)(time_t*);
    if(!real) real = dlsym(RTLD_NEXT, "time");
    if(!on) return real(p);
    time_t t = tick() / 1000000000ll;
    if(p) *p = t;
    return t;
}
clock_t clock(void){
    static clock_t (*real)(void);
    if(!real) real = dlsym(RTLD_NEXT, "clock");
    return on ? (clock_t)(tick() / 1000) : real();
}
pid_t getpid(void){
    static pid_t (*real)(void);
    if(!real) real = dlsym(RTLD_NEXT, "getpid");
    if(!on) return real();
    npid++;
    return (pid_t)fake_pid;
}
ssize_t getrandom(void *b, size_t n, unsigned f){
    static ssize_t (*real)(void*, size_t, unsigned);
    if(!real) real = dlsym(RTLD_NEXT, "getrandom");
    if(!on) return real(b, n, f);
    nrand++;
    for(size_t i = 0; i < n; i += 8){
        uint64_t z = rnd();
        memcpy((char*)b + i, &z, n - i < 8 ? n - i : 8);
    }
    return (ssize_t)n;
}
int getentropy(void *b, size_t n){ return getrandom(b, n, 0) < 0 ? -1 : 0; }
