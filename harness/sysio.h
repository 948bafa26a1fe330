// System calls of the file streams, shortened, interrupted and failed by schedule,
// with an account of every descriptor. Define SYSIO_DEFINE in one translation unit.
#pragma once
#include "vf.h"
#include <fcntl.h>
#include <unistd.h>
#include <sys/syscall.h>
#include <sys/stat.h>
namespace vf {
struct SysIo {
    bool on; unsigned pshort, peintr;	// chance in 100 of a short or interrupted call
    i64 wleft, rleft;			// bytes written or read before a failure; -1 never
    int werr, rerr; bool sticky;	// error codes (0: end of file for read, return 0 for write); whether errors persist
    unsigned pagain;			// chance in 100 of EAGAIN on write
    int eopen, eclose, eseek, esync, estat, esetfl;	// errors of other calls, once
    unsigned char st [1024];		// descriptors: 1 open, 2 closed
    int watch; i64 watched;		// size of the file at descriptor watch (0: none) when descriptor 0 was last read
    u64 nopen, nclose, calls, shorts, eintrs, errors;
    void reset (void) { memset (this, 0, sizeof(*this)); wleft = rleft = -1; }
    bool mine (int fd) const { return on && fd >= 0 && fd < 1024 && st[fd] == 1; }
    unsigned leaked (void) const { unsigned n = 0; for (unsigned i = 0; i < 1024; ++i) n += st[i] == 1; return n; }
    static bool once (int& e) { if (!e) return false; errno = e; e = 0; return true; }
};
extern SysIo sysio;
#ifdef SYSIO_DEFINE
SysIo sysio;
#endif
}
#ifdef SYSIO_DEFINE
extern "C" {
int open (const char* fn, int fl, ...)
{
    va_list a; va_start (a, fl); const int mode = (fl & O_CREAT) ? va_arg (a, int) : 0; va_end (a);
    vf::SysIo& s = vf::sysio;
    if (s.on) { ++s.calls; if (s.once (s.eopen)) { ++s.errors; return -1; } }
    const int fd = syscall (SYS_openat, AT_FDCWD, fn, fl, mode);
    if (s.on && fd >= 0 && fd < 1024) { s.st[fd] = 1; ++s.nopen; }
    return fd;
}
int close (int fd)
{
    vf::SysIo& s = vf::sysio;
    if (!s.on || fd < 0 || fd >= 1024 || !s.st[fd]) return syscall (SYS_close, fd);
    ++s.calls;
    if (s.st[fd] == 2) { vf::note_fail ("double-close", "descriptor %d is closed again", fd); errno = EBADF; return -1; }
    if (vf::R.chance (s.peintr, 100)) { ++s.eintrs; errno = EINTR; return -1; }
    s.st[fd] = 2; ++s.nclose;
    syscall (SYS_close, fd);
    if (s.once (s.eclose)) { ++s.errors; return -1; }
    return 0;
}
ssize_t read (int fd, void* p, size_t n)
{
    vf::SysIo& s = vf::sysio;
    if (!s.mine (fd)) return syscall (SYS_read, fd, p, n);
    ++s.calls;
    if (!fd && s.watch) { struct stat st; syscall (SYS_fstat, s.watch, &st); s.watched = st.st_size; }
    if (vf::R.chance (s.peintr, 100)) { ++s.eintrs; errno = EINTR; return -1; }
    if (!s.rleft) { if (!s.sticky) s.rleft = -1; ++s.errors; errno = s.rerr; return s.rerr ? -1 : 0; }
    if (n > 1 && vf::R.chance (s.pshort, 100)) { n = 1 + vf::R.below (n < 60 || vf::R.chance (1, 2) ? n : 60); ++s.shorts; }
    if (s.rleft > 0 && n > size_t(s.rleft)) n = s.rleft;
    const ssize_t r = syscall (SYS_read, fd, p, n);
    if (r > 0 && s.rleft > 0) s.rleft -= r;
    return r;
}
ssize_t write (int fd, const void* p, size_t n)
{
    vf::SysIo& s = vf::sysio;
    if (!s.mine (fd)) return syscall (SYS_write, fd, p, n);
    ++s.calls;
    if (vf::R.chance (s.peintr, 100)) { ++s.eintrs; errno = EINTR; return -1; }
    if (vf::R.chance (s.pagain, 100)) { ++s.eintrs; errno = EAGAIN; return -1; }
    if (!s.wleft && n) { if (!s.sticky) s.wleft = -1; ++s.errors; errno = s.werr; return s.werr ? -1 : 0; }
    if (n > 1 && vf::R.chance (s.pshort, 100)) { n = 1 + vf::R.below (n < 60 || vf::R.chance (1, 2) ? n : 60); ++s.shorts; }
    if (s.wleft > 0 && n > size_t(s.wleft)) n = s.wleft;
    const ssize_t r = syscall (SYS_write, fd, p, n);
    if (r > 0 && s.wleft > 0) s.wleft -= r;
    return r;
}
off_t lseek (int fd, off_t o, int w) throw() { vf::SysIo& s = vf::sysio; if (s.mine (fd) && (o || w != SEEK_CUR)) { ++s.calls; if (s.once (s.eseek)) { ++s.errors; return -1; } } return syscall (SYS_lseek, fd, o, w); }
int fcntl (int fd, int cmd, ...)
{
    va_list a; va_start (a, cmd); const long v = va_arg (a, long); va_end (a);
    vf::SysIo& s = vf::sysio;
    if (s.mine (fd) && cmd == F_SETFL) { ++s.calls; if (s.once (s.esetfl)) { ++s.errors; return -1; } }
    return syscall (SYS_fcntl, fd, cmd, v);
}
int fsync (int fd) { vf::SysIo& s = vf::sysio; if (s.mine (fd)) { ++s.calls; if (s.once (s.esync)) { ++s.errors; return -1; } return 0; } return syscall (SYS_fsync, fd); }
int fstat (int fd, struct stat* b) throw() { vf::SysIo& s = vf::sysio; if (s.mine (fd)) { ++s.calls; if (s.once (s.estat)) { ++s.errors; return -1; } } return syscall (SYS_fstat, fd, b); }
}
#endif
