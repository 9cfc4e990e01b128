#include "concurrent/pcbuf.h"
#include "concurrent/mvar.h"
#include "concurrent/chan.h"
#include "concurrent/qsem.h"
#include "concurrent/rwmutex.h"
#include "concurrent/thread.h"
struct Elem { int a; Elem(); Elem(const Elem&); Elem& operator=(const Elem&); ~Elem(); };
template class pfi::concurrent::pcbuf<Elem>;
template class pfi::concurrent::mvar<Elem>;
template class pfi::concurrent::chan<Elem>;
void use_qsem(){ pfi::concurrent::qsem q(1); q.wait(3); q.signal(2); q.lock(); q.unlock(); }
void use_guards(pfi::concurrent::rw_mutex& m, pfi::concurrent::lockable& l){
  using namespace pfi::concurrent;
  scoped_rlock r(m); scoped_wlock w(m); scoped_rlock r2(r); scoped_wlock w2(w);
  scoped_rlock r3(m, 1.0);
  scoped_lock a(l); scoped_lock b(rlock(m)); scoped_lock c(wlock(m)); scoped_lock d(rlock(m,1)); scoped_lock e(wlock(m,1));
  if (a && r) b.locked();
  mutex p; r_mutex q; qsem s(1);
}
