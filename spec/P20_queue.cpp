// P20: the queues of the client, for every schedule: what another thread does shows only at the points where the mutex is taken, where
// everything that it guards becomes arbitrary.
#include "vf.h"
#include <string>
#include <sstream>
#include <WriteQueue.cpp>
#ifndef VF_NATIVE
static WriteQueue* g_wq; static ParseRequest* g_r[2]; static int g_cur, g_n, g_locked, g_popped, g_written, g_ok, g_pushed, g_notified, g_joined, g_ordered; static ParseRequest* g_what;
static void others() { g_n = vf_size("queued", 0, 1u << 20); g_wq->completed = vf_bool("completed"); g_wq->maxposition = vf_size("max", 0, 1u << 20); g_r[g_cur]->position = vf_size("position", 0, 1u << 20); g_r[g_cur]->status = vf_size("status", 0, 100); }
extern "C" void vgs_lock(void* m) { vf_assert((m == &g_wq->qmutex) & !g_locked, "the mutex of the queue is taken when it is not held"); g_locked = 1; others(); }
extern "C" void vgs_unlock(void* m) { vf_assert((m == &g_wq->qmutex) & g_locked, "the mutex of the queue is released when it is held"); g_locked = 0; }
extern "C" void vgs_wait(void* cv, void* lock) { vf_assert((cv == &g_wq->cv) & g_locked & (g_popped == 0), "waiting is done with the mutex held, and not for something that is in the queue and can be written"); vf_assert((g_n == 0) | (g_wq->ordered & (g_r[g_cur]->position != g_written + 1)), "there is no waiting when the next request is there"); vf_assert((g_n != 0) | !g_wq->completed, "there is no waiting when everything is done"); others(); }
extern "C" void vgs_notify(void* cv) { vf_assert(cv == &g_wq->cv, "the writer is notified"); ++g_notified; }
extern "C" bool vgs_q_empty(void* q) { vf_assert((q == &g_wq->q) & g_locked, "the queue is used with the mutex held"); return g_n == 0; }
static std::shared_ptr<ParseRequest> g_sp[2];
extern "C" void* vgs_q_top(void* q) { vf_assert((q == &g_wq->q) & g_locked & (g_n > 0), "the first of the queue is used with the mutex held, when there is one"); return &g_sp[g_cur]; }
extern "C" void vgs_q_pop(void* q) { vf_assert((q == &g_wq->q) & g_locked & (g_n > 0), "a request is removed with the mutex held, when there is one"); vf_assert(g_popped == 0, "a request that was removed is written"); vf_assert(!g_wq->ordered | (g_r[g_cur]->position == g_written + 1), "the requests are taken in the order of their positions"); g_popped = 1; g_n = g_n - 1; g_cur = 1 - g_cur; g_r[g_cur]->position = vf_size("position", 0, 1u << 20); g_r[g_cur]->status = vf_size("status", 0, 100); }
extern "C" void vgs_q_push(void* q, std::shared_ptr<ParseRequest>* p) { vf_assert((q == &g_wq->q) & g_locked, "a request is added with the mutex held"); ++g_pushed; g_what = p->get(); }
extern "C" void vgs_join(void* t) { vf_assert((t == &g_wq->write_thread) & !g_locked & g_wq->completed & (g_notified > 0), "the writer is waited for without the mutex, after it was told"); ++g_joined; }
extern "C" void vgs_write(std::shared_ptr<ParseRequest>* p) { ParseRequest* r = p->get(); vf_assert((g_popped == 1) & (r == g_r[1 - g_cur]), "the request that was removed is written, once"); vf_assert(!g_wq->ordered | (r->position == g_written + 1), "the requests are written in the order of their positions"); vf_assert(!g_locked, "the mutex is not held while a request is written"); g_popped = 0; g_written = g_written + 1; if (r->status == SRCML_STATUS_OK) g_ok = g_ok + 1; }
static WriteQueue* queue() { g_wq = (WriteQueue*) vf_object("queue", sizeof(WriteQueue)); for (int i = 0; i < 2; ++i) { g_r[i] = (ParseRequest*) vf_object(i ? "request1" : "request0", sizeof(ParseRequest)); new ((void*) &g_sp[i]) std::shared_ptr<ParseRequest>(std::shared_ptr<ParseRequest>(), g_r[i]); } g_cur = g_locked = g_popped = g_written = g_ok = g_pushed = g_notified = g_joined = 0; g_n = 0; g_what = 0; return g_wq; }
VF_HARNESS(process) { WriteQueue* w = queue(); w->total = 0; w->process(); vf_assert((g_n == 0) & w->completed, "the writer ends when everything was scheduled and written"); vf_assert((g_popped == 0) & !g_locked, "nothing that was removed is left"); vf_assert(w->total == g_ok, "the units that were written are counted"); vf_reach("end"); }
VF_HARNESS(schedule) { WriteQueue* w = queue(); std::shared_ptr<ParseRequest> p(g_sp[0]); w->schedule(p); vf_assert((g_pushed == 1) & (g_what == g_r[0]) & !g_locked & (g_notified >= 1), "a request is added once, and the writer is told"); vf_reach("end"); }
VF_HARNESS(stop) { WriteQueue* w = queue(); w->stop(); vf_assert(g_joined == 1, "stopping waits for the writer"); vf_reach("end"); }
static bool (*g_cmp)(std::shared_ptr<ParseRequest>, std::shared_ptr<ParseRequest>); static int g_threads;
extern "C" void vgs_q_make(void*, void** cmp) { g_cmp = (bool (*)(std::shared_ptr<ParseRequest>, std::shared_ptr<ParseRequest>)) *cmp; }
extern "C" void vgs_thread(void*) { ++g_threads; }
VF_HARNESS(create) { queue(); g_cmp = 0; g_threads = 0; TraceLog* log = (TraceLog*) vf_object("log", sizeof(TraceLog)); srcml_output_dest* dest = (srcml_output_dest*) vf_object("dest", sizeof(srcml_output_dest)); bool ordered = vf_bool("ordered"); WriteQueue* w = new WriteQueue(*log, *dest, ordered);
    vf_assert((g_threads == 1) & (w->ordered == ordered) & (w->total == 0) & !w->completed, "a new queue has one writer and nothing done"); vf_assert(g_cmp(g_sp[0], g_sp[1]) == (g_r[0]->position > g_r[1]->position), "the request with the smallest position is the first of the queue"); vf_reach("end"); }
#endif
