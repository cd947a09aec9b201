// A cooperative scheduler behind ThreadSanitizer's compile-time instrumentation: only one managed thread runs
// at a time, and it can be preempted before any access to memory, lock or atomic it shares with another one.
// Also a heap in which every instrumented access to memory that is not allocated (any more) is noticed.
#pragma once
#include <stddef.h>
#include <stdint.h>
extern "C" {
enum { VF_MAXT = 6, VF_MAXSTEP = 16, VF_REC = 1 << 16 };
struct VfStep { int t; long k; };
struct VfTable { uintptr_t key[VF_REC]; unsigned char bits[VF_REC]; int n; };
struct VfShared {
    int recording;                 // record the accesses of every thread
    int nsteps; VfStep steps[VF_MAXSTEP]; // run thread t until it is about to make its k-th shared access, then the next step
    unsigned seed; int one_in;     // without steps: switch at random, once in one_in shared accesses
    VfTable rec[VF_MAXT], conf;    // what every thread accessed; what is shared
    long vis[VF_MAXT];             // number of shared accesses made
    char status[400];              // why the run ended early, or empty
    void* bt[24]; int nbt;
    long len; char text[1 << 16];  // what the run observed
};
extern VfShared* vf_sh;
void vf_rt_init();
// runs pre(i) one after the other, then body(0) .. body(n - 1) on threads of their own under the schedule; returns 0, or 1 if all remaining threads block each other
int vf_rt_run(int n, void (*pre)(int), void (*body)(int), void (*post)(int)); // post: when a thread has ended
void vf_rt_share();   // computes conf from rec
int vf_rt_self();     // index of the running managed thread, or -1
const char* vf_rt_base();
void vf_rt_fail(const char* why);
}
