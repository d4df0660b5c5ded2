// After this the code which is included next uses the scheduled primitives.
#include "thr.h"
#include <string>
namespace std {
template <class M> struct vf_unique_lock {
  typedef M mutex_type; M *m = nullptr; bool own = false;
  vf_unique_lock() noexcept {} explicit vf_unique_lock(M &x) : m(&x) { lock(); } vf_unique_lock(M &x, std::defer_lock_t) : m(&x) {} vf_unique_lock(M &x, std::adopt_lock_t) : m(&x), own(true) {} vf_unique_lock(M &x, std::try_to_lock_t) : m(&x), own(x.try_lock()) {}
  vf_unique_lock(vf_unique_lock &&o) noexcept : m(o.m), own(o.own) { o.m = nullptr; o.own = false; } vf_unique_lock &operator=(vf_unique_lock &&o) noexcept { if (own) unlock(); m = o.m; own = o.own; o.m = nullptr; o.own = false; return *this; }
  ~vf_unique_lock() { if (own) m->unlock(); }
  void lock() { m->lock(); own = true; } bool try_lock() { return own = m->try_lock(); } void unlock() { if (!own) vf_fail("not locked"); m->unlock(); own = false; } M *release() noexcept { M *r = m; m = nullptr; own = false; return r; }
  bool owns_lock() const noexcept { return own; } explicit operator bool() const noexcept { return own; } M *mutex() const noexcept { return m; } M *vf_mutex() const noexcept { return m; }
};
}
#include "thr_on2.h"
