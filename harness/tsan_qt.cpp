// Qt is not instrumented: tell ThreadSanitizer what its synchronization means. The definitions here are found before
// those of libQt5Core by the instrumented libraries and forward to them.
#include <dlfcn.h>
#include <QMutex>
#include <QReadWriteLock>
#include <QSemaphore>
#include <QWaitCondition>

#ifdef VP_SAN_TSAN
extern "C" void __tsan_acquire(void *);
extern "C" void __tsan_release(void *);
template<class F> static F next(const char *name) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, name)); }
#define REAL(type, name) using F = type; static const F real = next<F>(name)

void QSemaphore::acquire(int n) { REAL(void (*)(QSemaphore *, int), "_ZN10QSemaphore7acquireEi"); real(this, n); __tsan_acquire(this); }
bool QSemaphore::tryAcquire(int n) { REAL(bool (*)(QSemaphore *, int), "_ZN10QSemaphore10tryAcquireEi"); bool b = real(this, n); if (b) __tsan_acquire(this); return b; }
bool QSemaphore::tryAcquire(int n, int t) { REAL(bool (*)(QSemaphore *, int, int), "_ZN10QSemaphore10tryAcquireEii"); bool b = real(this, n, t); if (b) __tsan_acquire(this); return b; }
void QSemaphore::release(int n) { REAL(void (*)(QSemaphore *, int), "_ZN10QSemaphore7releaseEi"); __tsan_release(this); real(this, n); }

void QMutex::lock() { REAL(void (*)(QMutex *), "_ZN6QMutex4lockEv"); real(this); __tsan_acquire(this); }
bool QMutex::tryLock(int t) { REAL(bool (*)(QMutex *, int), "_ZN6QMutex7tryLockEi"); bool b = real(this, t); if (b) __tsan_acquire(this); return b; }
void QMutex::unlock() { REAL(void (*)(QMutex *), "_ZN6QMutex6unlockEv"); __tsan_release(this); real(this); }

void QReadWriteLock::lockForRead() { REAL(void (*)(QReadWriteLock *), "_ZN14QReadWriteLock11lockForReadEv"); real(this); __tsan_acquire(this); }
void QReadWriteLock::lockForWrite() { REAL(void (*)(QReadWriteLock *), "_ZN14QReadWriteLock12lockForWriteEv"); real(this); __tsan_acquire(this); }
bool QReadWriteLock::tryLockForRead() { REAL(bool (*)(QReadWriteLock *), "_ZN14QReadWriteLock14tryLockForReadEv"); bool b = real(this); if (b) __tsan_acquire(this); return b; }
bool QReadWriteLock::tryLockForRead(int t) { REAL(bool (*)(QReadWriteLock *, int), "_ZN14QReadWriteLock14tryLockForReadEi"); bool b = real(this, t); if (b) __tsan_acquire(this); return b; }
bool QReadWriteLock::tryLockForWrite() { REAL(bool (*)(QReadWriteLock *), "_ZN14QReadWriteLock15tryLockForWriteEv"); bool b = real(this); if (b) __tsan_acquire(this); return b; }
bool QReadWriteLock::tryLockForWrite(int t) { REAL(bool (*)(QReadWriteLock *, int), "_ZN14QReadWriteLock15tryLockForWriteEi"); bool b = real(this, t); if (b) __tsan_acquire(this); return b; }
void QReadWriteLock::unlock() { REAL(void (*)(QReadWriteLock *), "_ZN14QReadWriteLock6unlockEv"); __tsan_release(this); real(this); }

bool QWaitCondition::wait(QMutex *m, unsigned long t) { REAL(bool (*)(QWaitCondition *, QMutex *, unsigned long), "_ZN14QWaitCondition4waitEP6QMutexm"); __tsan_release(m); bool b = real(this, m, t); __tsan_acquire(m); return b; }
bool QWaitCondition::wait(QMutex *m, QDeadlineTimer t) { REAL(bool (*)(QWaitCondition *, QMutex *, QDeadlineTimer), "_ZN14QWaitCondition4waitEP6QMutex14QDeadlineTimer"); __tsan_release(m); bool b = real(this, m, t); __tsan_acquire(m); return b; }

// slow paths of the inline fast path in qmutex.h; private members, hence by their linker names
extern "C" void vp_lockInternal(QBasicMutex *m) __asm__("_ZN11QBasicMutex12lockInternalEv");
extern "C" void vp_lockInternal(QBasicMutex *m) { REAL(void (*)(QBasicMutex *), "_ZN11QBasicMutex12lockInternalEv"); real(m); __tsan_acquire(m); }
extern "C" bool vp_lockInternalT(QBasicMutex *m, int t) __asm__("_ZN11QBasicMutex12lockInternalEi");
extern "C" bool vp_lockInternalT(QBasicMutex *m, int t) { REAL(bool (*)(QBasicMutex *, int), "_ZN11QBasicMutex12lockInternalEi"); bool b = real(m, t); if (b) __tsan_acquire(m); return b; }
extern "C" void vp_unlockInternal(QBasicMutex *m) __asm__("_ZN11QBasicMutex14unlockInternalEv");
extern "C" void vp_unlockInternal(QBasicMutex *m) { REAL(void (*)(QBasicMutex *), "_ZN11QBasicMutex14unlockInternalEv"); __tsan_release(m); real(m); }
#endif
