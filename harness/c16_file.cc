// C16: file streams transfer exactly the bytes asked, whatever system calls return.
#define SYSIO_DEFINE
#include "sysio.h"
#include "itext.h"
#include <sys/ioctl.h>
using namespace vf;
namespace {
typedef ustl::ios_base B;
typedef Arr<char> MB;
struct Session {	// faults are on between construction and destruction; every descriptor must be closed by then
    char fn [300];
    Session (void) { snprintf (fn, sizeof(fn), "%s/f%u", g_scratch, unsigned (R.below (3))); unlink (fn); sysio.reset(); }
    ~Session (void) { sysio.on = false; for (unsigned i = 0; i < 1024; ++i) if (sysio.st[i] == 1) syscall (SYS_close, i); unlink (fn); }
    void put (const MB& t) { int fd = syscall (SYS_openat, AT_FDCWD, fn, O_CREAT | O_WRONLY | O_TRUNC, 0644); size_t at = 0; while (at < t.n) at += syscall (SYS_write, fd, t.p + at, t.n - at); syscall (SYS_close, fd); }
    MB got (void) { MB t; int fd = syscall (SYS_openat, AT_FDCWD, fn, O_RDONLY, 0); if (fd < 0) return t; char b [4096]; ssize_t r; while ((r = syscall (SYS_read, fd, b, sizeof(b))) > 0) t.insert (t.n, b, r); syscall (SYS_close, fd); return t; }
    void shake (void) { sysio.on = true; sysio.pshort = R.chance (1, 4) ? 0 : R.below (101); sysio.peintr = R.chance (1, 3) ? 0 : R.below (60); }
    void closed (void) { VC (!sysio.leaked(), "descriptor-leak", "%u of %u descriptors were not closed", sysio.leaked(), unsigned (sysio.nopen)); VC (sysio.nopen == sysio.nclose, "descriptors", "%u opened, %u closed", unsigned (sysio.nopen), unsigned (sysio.nclose)); }
};
void rawclose (int fd) { while (close (fd) && errno == EINTR) {} }
MB noise (size_t n) { MB t; t.grow (n); for (size_t i = 0; i < n; ++i) t.push (R.next()); return t; }
size_t fsize (void) { return R.chance (1, 80) ? R.below (300000) : R.chance (1, 8) ? R.below (30000) : R.chance (1, 3) ? 4000 + R.below (200) : R.size (600); }

// File content once the bytes pend[0,k) are applied at c over base
bool applied (const MB& f, const MB& base, size_t c, const MB& pend, size_t k)
{
    const size_t n = k ? (c + k > base.n ? c + k : base.n) : base.n;
    if (f.n != n) return false;
    for (size_t i = 0; i < n; ++i) {
	char e = k && i >= c && i < c + k ? pend[i - c] : i < base.n ? base[i] : '\0';
	if (f[i] != e) return false;
    }
    return true;
}
// The longest k not above pend.n for which that is so, or npos
size_t prefix (const MB& f, const MB& base, size_t c, const MB& pend)
{
    const size_t no = size_t(-1);
    if (f.n < base.n) return no;
    if (f.n > base.n) return f.n > c && f.n - c <= pend.n && applied (f, base, c, pend, f.n - c) ? f.n - c : no;
    size_t diff = base.n; while (diff && f[diff-1] == base[diff-1]) --diff;	// f and base agree from here
    if (c >= base.n) return diff ? no : 0;
    size_t k = 0; while (k < pend.n && c + k < base.n && f[c+k] == pend[k]) ++k;
    if (c + k < diff) return no;
    for (size_t i = 0; i < c; ++i) if (f[i] != base[i]) return no;
    return k;
}
const int errs[] = { EIO, ENOSPC, EPIPE, EDQUOT, EFBIG };

VF_CASE (c16_ofstream, 500, 6000)
{
    Session s; MB base; const bool exists = R.chance (1, 2); if (exists) { base = noise (fsize()); s.put (base); }
    static const unsigned modes[] = { B::out | B::trunc, B::out, B::out | B::app, B::in | B::out | B::trunc, B::out | B::nocreate, B::out | B::trunc | B::binary };
    unsigned mode = modes[R.below (6)]; if ((mode & B::nocreate) && !exists) mode &= ~B::nocreate;
    if (mode & B::trunc) base.clear();
    const bool app = mode & B::app; size_t c = app ? base.n : 0; MB pend;
    const unsigned kind = R.below (6) < 3 ? 0 : 1 + R.below (3); const bool exc = kind && kind < 3 && R.chance (1, 3);
    s.shake();
    if (kind == 1 || kind == 2) { sysio.wleft = R.below (R.chance (1, 2) ? 400 : 12000); sysio.werr = R.chance (1, 6) ? 0 : errs[R.below (5)]; sysio.sticky = kind == 1; }
    if (kind == 3) sysio.pagain = R.below (70);
    const int werr = sysio.werr; const bool weof = kind && kind < 3 && !werr;
    bool failed = false, cut = false; size_t sure = 0;	// how much of pend was accepted for sure when an insertion failed
    trace ("kind %u mode %x base %zu short %u eintr %u wleft %lld err %d; ", kind, mode, base.n, sysio.pshort, sysio.peintr, (long long) sysio.wleft, werr);
    {
	ustl::ofstream *f; unsigned how = R.below (3);
	uint64_t mem [(sizeof(ustl::ofstream) + 7) / 8];
	if (how == 0) f = new (mem) ustl::ofstream (s.fn, mode);
	else if (how == 1) { f = new (mem) ustl::ofstream; f->open (s.fn, mode); }
	else { int fd = open (s.fn, O_WRONLY | (mode & B::nocreate ? 0 : O_CREAT) | (mode & B::trunc ? O_TRUNC : 0) | (app ? O_APPEND : 0), 0644); f = new (mem) ustl::ofstream (fd); }
	VC (f->is_open() && f->good(), "open", "not open or state %x", unsigned (f->rdstate()));
	if (exc) f->exceptions (B::allbadbits);
	ustl::ofstream& o = *f;
	const unsigned n = 1 + R.below (R.chance (1, 6) ? 400 : 40); bool threw = false;
	for (unsigned i = 0; i < n && !failed; ++i) {
	    MB t; char b [2100]; const unsigned op = R.below (20); const size_t before = pend.n; int len = 0; const char* nm = "insert";
	    // the text first, so that an exception does not lose track of it
	    if (op < 3) { t = noise (R.size (300)); for (size_t k = 0; k < t.n; ++k) if (!t[k] && op == 1) t[k] = 'z'; }
	    else if (op == 3) { t = noise (R.size (R.chance (1, 4) ? 20000 : 5000)); }
	    long v = long (R.bits()); int iv = int (R.bits()); double dv = R.range (-99999, 99999) / 16.0; char ch = R.next(); unsigned short us = R.next();
	    switch (op) { case 4: len = sprintf (b, "%d", iv); break; case 5: len = sprintf (b, "%ld", v); break; case 6: len = sprintf (b, "%.2f", dv); break; case 7: b[0] = ch; len = 1; break; case 8: len = sprintf (b, "%s", v & 1 ? "true" : "false"); break;
		case 9: len = sprintf (b, "%x", iv); break; case 10: len = sprintf (b, "%hu", us); break; case 11: len = sprintf (b, "[%*d]%s", int (us % 200), iv, "tail"); break; case 12: b[0] = '\n'; len = 1; break; case 18: len = sprintf (b, "key=%ld;", v); break; }
	    if (len) t.insert (0, b, len);
	    pend.insert (pend.n, t.p, t.n); trace ("%u(%zu) ", op, t.n);
	    bool ins = true; MB z (t); z.push (0);
	    try { switch (op) {
		case 0: o.write (t.p, t.n); break;
		case 1: o << (const char*) z.p; break;
		case 2: { ustl::string x; x.assign (t.p, t.n); o << x; } break;
		case 3: if (R.chance (1, 2)) { ustl::cmemlink l (t.p, t.n); o.write (l); } else o.write (t.p, t.n); break;
		case 4: o << iv; break; case 5: o << v; break; case 6: o << dv; break; case 7: o << ch; break; case 8: o << bool (v & 1); break;
		case 9: o << ustl::ios::hex << iv << ustl::ios::dec; break; case 10: o << us; break;
		case 11: o.format ("[%*d]%s", int (us % 200), iv, "tail"); break;
		case 12: o << ustl::endl; break;
		case 13: nm = "flush"; ins = false; o << ustl::flush; break;
		case 14: case 15: nm = "flush"; ins = false; o.flush(); break;
		case 16: if (app || kind) break; { nm = "seekp"; ins = false; size_t at = R.below (base.n + pend.n + 10); if (R.chance (1, 3)) { i64 d = R.range (-i64 (c + pend.n < 50 ? c + pend.n : 50), 50); at = c + pend.n + d; o.seekp (d, B::cur); } else o.seekp (at);
		    MB g = s.got(); VC (applied (g, base, c, pend, pend.n), "content", "after seekp the file of %zu is not the %zu bytes written over %zu", g.n, pend.n, base.n); base = g; c = at; pend.clear(); VC (o.good(), "state", "after seekp"); } break;
		case 17: nm = "tellp"; ins = false; if (!app && o.good()) VC (size_t(o.tellp()) == c + pend.n, "tellp", "%zd, %zu written from %zu", ssize_t(o.tellp()), pend.n, c); break;
		case 18: o << "key="; if (o.good()) o << v; if (o.good()) o << ';'; break;
		default: nm = "none"; ins = false; break;
	    } } catch (ustl::file_exception& e) {
		threw = failed = true; VC (exc, "throw", "file_exception with exceptions off");
		ustl::string inf; e.info (inf); char ms [100]; 
		VC (werr && e.Errno() == werr && !strcmp (e.Operation(), "write") && !strcmp (e.Filename(), how == 2 ? "" : s.fn), "exception", "write failed with %d; the exception has %d, operation %s, file %s", werr, e.Errno(), e.Operation(), e.Filename());
		snprintf (ms, sizeof(ms), "%s", strerror (werr)); VC (strstr (inf.c_str(), ms) && strstr (inf.c_str(), "write"), "exception", "info is %s", inf.c_str());
	    } catch (ustl::stream_bounds_exception&) { threw = failed = true; VC (exc && (weof || o.fail()), "throw", "bounds exception"); }
	    if (!o.good()) failed = true;
	    ops();
	    if (failed) { VC (kind == 1 || kind == 2, "state", "%s failed without an error, state %x", nm, unsigned (o.rdstate())); VC (sysio.errors, "state", "%s failed before any error occurred", nm); VC (o.fail() || o.bad(), "state", "failure without failbit or badbit, state %x", unsigned (o.rdstate())); cut = ins; sure = cut ? before : pend.n; break; }
	    MB g; if (R.chance (1, 10)) { g = s.got(); const bool ok = prefix (g, base, c, pend) != size_t(-1); VC (ok || (app && g.n <= base.n), "order", "the file of %zu is not a prefix of the %zu bytes inserted", g.n, pend.n); }
	    if (!ins && op >= 13 && op <= 15 && kind != 3) { g = s.got(); VC (!o.pos() && applied (g, base, c, pend, pend.n), "flush", "after flush %zu bytes are in the buffer and the file has %zu; base %zu, inserted %zu", size_t(o.pos()), g.n, base.n, pend.n); }
	    sig (hmix (op, hmix (kind, hmix (exc, hmix (mode, o.pos() > 4000)))));
	}
	if (kind == 3) for (unsigned i = 0; i < 2000 && o.pos(); ++i) { o.flush(); VC (o.good(), "state", "would-block gives state %x", unsigned (o.rdstate())); }
	if (kind == 2 && failed) {	// the error was transient: nothing accepted is lost
	    o.clear();
	    bool t2 = false; try { o.flush(); } catch (ustl::exception&) { t2 = true; }
	    MB g = s.got(); const size_t k = prefix (g, base, c, pend);
	    {
		VC (!t2 && o.good() && !o.pos(), "retry", "flush after the error was cleared: state %x, %zu bytes left", unsigned (o.rdstate()), size_t(o.pos()));
		VC (k != size_t(-1) && k >= sure, "retry", "after an error was cleared the file of %zu is not base %zu with %zu to %zu bytes at %zu", g.n, base.n, sure, pend.n, c);
		pend.n = k; failed = false; }
	}
	sysio.pagain = 0;
	bool rep = failed; const bool dest = !exc && R.chance (1, 4);
	if (!dest) { if (R.chance (1, 2)) { o.clear(); if (exc) o.exceptions (0); } else if (exc) o.exceptions (0); const bool w = o.good(); o.close(); rep = rep || !o.good() || !w; VC (!o.is_open(), "close", "still open"); }
	else if (exc) o.exceptions (0);
	f->~ofstream();
	MB g = s.got();
	if (!failed && kind != 1 && kind != 2) VC (!rep || dest, "state", "failure reported without an error");
	bool ok = applied (g, base, c, pend, pend.n);
	if (!ok && (rep || (dest && sysio.errors))) { ok = prefix (g, base, c, pend) != size_t(-1); }
	// with exceptions on a failed write leaves its bytes in the buffer, to be written again
	VC (ok, "content", "the file has %zu bytes; %zu were inserted at %zu over %zu, reported %d: %s", g.n, pend.n, c, base.n, rep, show (g.p, g.n < 60 ? g.n : 60));
    }
    s.closed();
    sig (hmix (kind, hmix (failed, hmix (mode, pend.n > 4095))));
    if (want_sample()) sample ("ofstream kind %u mode %x: %zu bytes inserted, %u system calls, %u short, %u interrupted, %u failed", kind, mode, pend.n, unsigned (sysio.calls), unsigned (sysio.shorts), unsigned (sysio.eintrs), unsigned (sysio.errors));
}

VF_CASE (c16_ifstream, 800, 10000)
{
    using namespace itext;
    Session s; MB b; P p; strcpy (p.del, " \t\n\r;:,.?"); p.flags = 0; p.pos = 0; if (R.chance (1, 8)) { static const size_t sz [] = { 100, 300, 700, 5000 }; g_big = sz [R.below (4)]; }
    text (b, p.del); while (R.chance (1, 3) && b.n < 6000) { MB x; text (x, p.del); MB y (b); for (unsigned k = 1 + R.below (4); k--;) b.insert (b.n, y.p, y.n); b.insert (b.n, x.p, x.n); }
    if (R.chance (1, 20)) { MB w; w.resize (4070 + R.below (40), 'w'); b.insert (R.chance (1, 2) ? 0 : b.n, w.p, w.n); }
    p.n = b.n; p.t = ctext (b); s.put (b); s.shake();
    {
	uint64_t mem [(sizeof(ustl::ifstream) + 7) / 8]; ustl::ifstream* f; const unsigned how = R.below (4);
	if (how == 0) f = new (mem) ustl::ifstream (s.fn); else if (how == 1) { f = new (mem) ustl::ifstream; f->open (s.fn); } else if (how == 2) f = new (mem) ustl::ifstream (open (s.fn, O_RDONLY));
	else { f = new (mem) ustl::ifstream (s.fn); ustl::string w; *f >> w; f->close(); f->open (s.fn); }
	ustl::ifstream& is = *f; VC (is.is_open() && is.good(), "open", "not open, state %x", unsigned (is.rdstate()));
	size_t bs = 4095; if (R.chance (2, 3)) is.set_buffer_size (bs = 1 + R.below (R.chance (1, 2) ? 8 : 100));
	trace ("%zu bytes, buffer %zu, short %u eintr %u; ", b.n, bs, sysio.pshort, sysio.peintr);
	for (unsigned i = 0, ns = 3 + R.below (60); i < ns; ++i) {
	    const unsigned op = R.below (NOPS + 4); const size_t p0 = p.pos;
	    if (op == 18 || (op >= 35 && op <= 36) || R.chance (2, 3)) is.clear();
	    trace ("op %u at %zu of %zu: %s", op, p.pos, p.n, show (p.t + p.pos, p.n - p.pos < 16 ? p.n - p.pos : 16));
	    if (op < NOPS) step (is, p, op);
	    else if (op == NOPS) { if (is.pos()) { --p.pos; char c = p.t[p.pos]; is.putback (c); } }
	    else if (op == NOPS + 1) { if (R.chance (1, 4)) { is.clear(); i64 d = -i64 (R.below (p.n + 1)); is.seekg (d, B::end); p.pos = p.n + d; } }
	    else if (op == NOPS + 2) { Arr<char> t; size_t k = R.below (400), e = p.n - p.pos < k ? p.n - p.pos : k; t.resize (k + 1, 'Z'); is.read (t.p, k); VC (is.gcount() == e && !memcmp (t.p, p.t + p.pos, e) && t[e] == 'Z', "read", "read of %zu with %zu there counts %u", k, p.n - p.pos, unsigned (is.gcount())); p.pos += e; }
	    else { struct stat st; is.stat (st); VC (size_t (st.st_size) == p.n, "stat", "%zu", size_t (st.st_size)); }
	    ops();
	    VC (size_t (is.tellg()) == p.pos, "position", "operation %u at %zu leaves position %zd, expected %zu (buffer %zu)", op, p0, ssize_t(is.tellg()), p.pos, bs);
	    sig (hmix (op, hmix (p.pos - p0 > 20 ? 20 : p.pos - p0, hmix (p.pos == p.n, hmix (bs < 4 ? bs : bs < 100 ? 50 : 4095, p.flags)))));
	}
	if (R.chance (1, 2)) { is.close(); VC (!is.is_open(), "close", "still open"); }
	f->~ifstream();
    }
    s.closed();
    if (want_sample()) sample ("ifstream over %zu bytes: %u system calls, %u short, %u interrupted", b.n, unsigned (sysio.calls), unsigned (sysio.shorts), unsigned (sysio.eintrs));
}

// Block reads and lines with errors: the bytes seen are the bytes of the file, in order; errors are reported
VF_CASE (c16_readerror, 500, 6000)
{
    Session s; const MB b = noise (fsize()); s.put (b); s.shake();
    const bool sticky = R.chance (1, 3), exc = R.chance (1, 3); const int err = R.chance (1, 2) ? EIO : EISDIR; const bool none = R.chance (1, 4);
    if (!none) { sysio.rleft = R.below (b.n + 1); sysio.rerr = err; sysio.sticky = sticky; }
    size_t at = 0; unsigned nerr = 0;
    {
	ustl::ifstream is (s.fn); if (R.chance (1, 2)) is.set_buffer_size (1 + R.below (100)); if (exc) is.exceptions (B::allbadbits);
	Arr<char> t; unsigned idle = 0;
	while (at < b.n && idle < 5) {
	    size_t k = 1 + R.below (R.chance (1, 6) ? 3000 : 60); if (exc && k > b.n - at) k = b.n - at; const size_t e = b.n - at < k ? b.n - at : k; t.clear(); t.resize (k + 1, 'Z'); size_t g = 0; bool th = false;
	    const u64 er0 = sysio.errors; const off_t tg = is.tellg(); VC (tg == off_t (at), "position", "tellg %zd at %zu", ssize_t (tg), at);
	    try { if (R.chance (1, 3)) { ustl::string l; is.get (l, char(b[at] + 1)); size_t x = 0; while (at + x < b.n && b[at + x] != char(b[at] + 1)) ++x; VC (l.size() <= x && !memcmp (l.data(), b.p + at, l.size()), "order", "text of %zu at %zu is not the text of the file", size_t(l.size()), at); g = l.size(); VC (g == x || !is.good(), "short", "get stopped at %zu of %zu in a good state", g, x); }
		else { is.read (t.p, k); g = is.gcount(); VC (g <= e && !memcmp (t.p, b.p + at, g) && t[g] == 'Z', "order", "read of %zu at %zu gave %zu other bytes", k, at, g); VC (g == e || !is.good(), "short", "read of %zu at %zu of %zu gave %zu and a good state", k, at, b.n, g); } }
	    catch (ustl::file_exception& x) { th = true; VC (exc && !none && x.Errno() == err && !strcmp (x.Operation(), "read") && !strcmp (x.Filename(), s.fn), "exception", "read failed with %d; the exception has %d, operation %s, file %s", err, x.Errno(), x.Operation(), x.Filename()); }
	    catch (ustl::stream_bounds_exception& x) { th = true; VC (exc, "throw", "with exceptions off"); }
	    ops();
	    if (sysio.errors > er0) { ++nerr; VC (is.fail(), "unreported", "a read error leaves state %x", unsigned (is.rdstate())); if (exc) VC (th, "unreported", "a read error does not throw"); }
	    if (th) { g = size_t (is.tellg()) - at; VC (g <= b.n - at, "position", "tellg %zd after an exception at %zu", ssize_t (is.tellg()), at); }
	    at += g; idle = g ? 0 : idle + 1;
	    if (!is.good()) is.clear();
	    sig (hmix (th, hmix (exc, hmix (g == e, hmix (sticky, hmix (k > 100, nerr > 3 ? 3 : nerr))))));
	}
	if (none || !sticky) VC (at == b.n, "lost", "reading stopped at %zu of %zu after %u errors", at, b.n, nerr);
    }
    s.closed();
}

// Direct reads, writes and seeks against a model of the file
VF_CASE (c16_fstream, 600, 8000)
{
    Session s; MB m; if (R.chance (2, 3)) { m = noise (fsize() / 4); s.put (m); }
    s.shake(); const bool exc = R.chance (1, 3), app = R.chance (1, 6); size_t pos = 0;
    {
	ustl::fstream f; VC (!f.is_open() && f.good() && f.fd() < 0, "open", "default state");
	if (exc) f.exceptions (B::allbadbits);
	const unsigned how = R.below (3), mode = B::in | B::out | (app ? unsigned (R.chance (1, 2) ? B::app : B::ate) : 0u);
	if (how == 0) f.open (s.fn, mode, 0600); else { int fd = open (s.fn, O_RDWR | O_CREAT | (app ? O_APPEND : 0), 0644); f.attach (fd, s.fn); VC (f.fd() == fd, "attach", "fd"); }
	VC (f.is_open() && f.good() && !strcmp (f.name().c_str(), s.fn), "open", "state %x name %s", unsigned (f.rdstate()), f.name().c_str());
	for (unsigned i = 0, ns = 3 + R.below (40); i < ns; ++i) {
	    const unsigned op = R.below (14); int inj = 0; size_t k = R.size (R.chance (1, 10) ? 4000 : 200); bool th = false, bth = false; int eno = 0; char eop [40] = ""; off_t r = -77; char* t = nullptr;
	    if (R.chance (1, 4)) inj = errs[R.below (5)];
	    const size_t rem = pos < m.n ? m.n - pos : 0; const char* nm = "?"; u64 er0 = sysio.errors; MB w; unsigned wh = 0; i64 off = 0; size_t ctpos = pos; bool expfail = false; size_t lim = 0;
	    try { switch (op) {
		case 0: case 1: nm = "read"; if (inj) { lim = R.below (k + 1); sysio.rleft = lim; sysio.rerr = inj; sysio.sticky = false; } t = (char*) arena (k + 1); memset (t, 'Z', k + 1); r = f.read (t, k); break;
		case 2: nm = "read"; if (!k) k = 1; if (inj) { sysio.rleft = lim = 0; sysio.rerr = inj; sysio.sticky = false; } t = (char*) arena (k + 1); memset (t, 'Z', k + 1); r = f.readsome (t, k); break;
		case 3: case 4: case 5: nm = "write"; w = noise (k); if (inj) { lim = R.below (k + 1); sysio.wleft = lim; sysio.werr = inj; sysio.sticky = false; } r = f.write (ro_copy (w.p, w.n), w.n); break;
		case 6: case 7: nm = "seek"; wh = R.below (3); off = wh == 0 ? R.range (-3, m.n + 20) : wh == 1 ? R.range (-i64 (pos) - 3, 40) : R.range (-i64 (m.n) - 3, 20); if (wh == 1 && !off) inj = 0; sysio.eseek = R.chance (1, 2) ? inj : 0; inj = sysio.eseek; ctpos = wh == 0 ? off : wh == 1 ? pos + off : m.n + off; expfail = inj || i64 (ctpos) < 0;
		    if (R.chance (1, 4)) { if (R.chance (1, 2)) f.seekg (off, B::seekdir (wh)); else f.seekp (off, B::seekdir (wh)); r = expfail ? -1 : off_t (ctpos); } else r = f.seek (off, B::seekdir (wh)); break;
		case 8: nm = "pos"; inj = 0; VC (size_t (f.pos()) == pos && size_t (f.tellg()) == pos && size_t (f.tellp()) == pos, "pos", "%zd, expected %zu", ssize_t (f.pos()), pos); break;
		case 9: { nm = "stat"; sysio.estat = inj; expfail = inj; if (R.chance (1, 2)) { r = f.size(); } else { struct stat st; f.stat (st); r = st.st_size; } VC (size_t (r) == m.n, "size", "%zd, expected %zu", ssize_t (r), m.n); } break;
		case 10: nm = "sync"; sysio.esync = inj; expfail = inj; if (R.chance (1, 2)) f.sync(); else f.flush(); break;
		case 11: { nm = "fcntl(F_GETFL)"; inj = 0; int fl = f.fcntl (FCNTLID (F_GETFL)); VC ((fl & O_ACCMODE) == O_RDWR && !(fl & O_NONBLOCK) && !!(fl & O_APPEND) == app, "fcntl", "flags %x", fl); f.set_nonblock (true); VC (f.fcntl (FCNTLID (F_GETFL)) == (fl | O_NONBLOCK), "fcntl", "set_nonblock"); f.set_nonblock (false); VC (f.fcntl (FCNTLID (F_GETFL)) == fl, "fcntl", "set_nonblock off"); } break;
		case 13: { nm = "fcntl(F_SETFL)"; const int fl = f.fcntl (FCNTLID (F_GETFL)); sysio.esetfl = inj; expfail = inj; f.set_nonblock (true); VC (f.fcntl (FCNTLID (F_GETFL)) == (inj ? fl : fl | O_NONBLOCK), "fcntl", "set_nonblock"); } break;
		default: { nm = "ioctl(99999)"; inj = 0; bool t9 = false; int q = 0; try { q = f.ioctl ("ioctl(99999)", 99999, 0); } catch (ustl::file_exception& x) { t9 = true; VC (!strcmp (x.Operation(), "ioctl(99999)") && (x.Errno() == ENOTTY || x.Errno() == EINVAL), "exception", "%s %d", x.Operation(), x.Errno()); } VC (t9 == exc && f.fail() && (exc || q < 0), "ioctl", "failed call: %d state %x", q, unsigned (f.rdstate())); f.clear(); } break;
	    } }
	    catch (ustl::file_exception& x) { th = true; eno = x.Errno(); snprintf (eop, sizeof(eop), "%s", x.Operation()); VC (!strcmp (x.Filename(), s.fn), "exception", "file %s", x.Filename()); }
	    catch (ustl::stream_bounds_exception& x) { bth = true; }
	    const bool hit = sysio.errors > er0;
	    sysio.rleft = sysio.wleft = -1; sysio.eseek = sysio.esync = sysio.estat = sysio.esetfl = 0;
	    ops();
	    if (th) VC (exc || op == 9, "throw", "%s threw file_exception with exceptions off", nm); if (bth) VC (exc, "throw", "%s threw bounds exception with exceptions off", nm);
	    if (th && op != 12) { const int e = hit ? inj : EINVAL; VC (eno == e && !strcmp (eop, nm), "exception", "%s failed with %d; the exception has %d, operation %s", nm, e, eno, eop); }
	    if (exc && !th && !bth && op != 11 && op != 12) VC (f.good(), "throw", "%s failed without throwing, state %x", nm, unsigned (f.rdstate()));
	    if (t) {	// read
		const size_t e = rem < k ? rem : k; size_t g = r < 0 ? size_t (f.pos()) - pos : r;
		VC (g <= e && !memcmp (t, m.p + pos, g) && t[g] == 'Z', "read", "read of %zu at %zu of %zu gave %zu bytes: %s", k, pos, m.n, g, show (t, g < 40 ? g : 40));
		if (r >= 0 && op != 2) VC (g == e || !f.good(), "read", "read of %zu at %zu of %zu gave %zu and state good", k, pos, m.n, g);
		if (!hit && op != 2) VC (g == e, "read", "read of %zu at %zu of %zu gave %zu without an error", k, pos, m.n, g);
		if (op == 2 && !hit) VC (g || !rem, "read", "readsome at %zu of %zu gave nothing", pos, m.n);
		if (hit) VC (f.fail() && !f.eof(), "unreported", "read error gives state %x", unsigned (f.rdstate())); else if (k > rem && (op != 2 || !rem)) VC (f.eof() && f.fail(), "unreported", "end of file gives state %x", unsigned (f.rdstate())); else VC (f.good(), "state", "read of %zu at %zu of %zu gives state %x", k, pos, m.n, unsigned (f.rdstate()));
		pos += g;
	    } else if (op >= 3 && op <= 5) {
		if (app) pos = m.n;
		size_t g = r < 0 ? size_t (f.pos()) - pos : r; if (th && app && !k) g = 0;
		if (th && app) { MB x = s.got(); g = x.n - m.n; }
		VC (g <= k, "write", "write of %zu returned %zu", k, g); if (!hit) VC (g == k && f.good(), "write", "write of %zu returned %zu, state %x", k, g, unsigned (f.rdstate())); else VC (f.fail() && g <= lim, "unreported", "write error gives state %x and %zu of %zu", unsigned (f.rdstate()), g, k);
		if (g) { if (pos > m.n) m.resize (pos, 0); for (size_t j = 0; j < g; ++j) if (pos + j < m.n) m[pos + j] = w[j]; else m.push (w[j]); pos += g; }
		if (app && !g) pos = f.pos();
	    } else if (op == 6 || op == 7) { if (expfail) VC ((th == exc) && f.fail() && (th || r < 0), "seek", "failed seek to %lld from %u returned %zd, state %x", (long long) off, wh, ssize_t (r), unsigned (f.rdstate())); else { VC (size_t (r) == ctpos && f.good(), "seek", "seek to %lld from %u returned %zd, expected %zu", (long long) off, wh, ssize_t (r), ctpos); pos = ctpos; } }
	    else if (op == 9 && expfail) VC (th, "stat", "failed stat did not throw");
	    else if (op == 13) { VC (th == (exc && expfail) && !!expfail == f.fail(), "unreported", "set_nonblock with error %d: thrown %d, state %x", inj, th, unsigned (f.rdstate())); f.clear(); f.set_nonblock (false); }
	    else if (op == 10) VC (!!expfail == f.fail() && !!expfail == f.bad(), "sync", "state %x", unsigned (f.rdstate()));
	    f.clear();
	    VC (size_t (f.pos()) == pos, "pos", "after %s at %zd, expected %zu", nm, ssize_t (f.pos()), pos);
	    if (R.chance (1, 6)) { MB g = s.got(); VC (g == m, "content", "after %s the file has %zu bytes, the model %zu", nm, g.n, m.n); }
	    sig (hmix (op, hmix (hit, hmix (exc, hmix (th + 2 * bth, hmix (app, hmix (pos == m.n, k > rem)))))));
	}
	const unsigned fin = R.below (3);
	if (fin == 0) { f.close(); VC (!f.is_open() && f.good() && f.name().empty(), "close", "state %x", unsigned (f.rdstate())); f.close(); }
	else if (fin == 1) { int fd = f.fd(); f.detach(); VC (!f.is_open() && sysio.st[fd] == 1, "detach", "descriptor closed"); rawclose (fd); }
    }
    MB g = s.got(); VC (g == m, "content", "finally the file has %zu bytes, the model %zu", g.n, m.n);
    s.closed();
    if (want_sample()) sample ("fstream: %zu bytes finally, %u system calls, %u short, %u interrupted, %u failed", m.n, unsigned (sysio.calls), unsigned (sysio.shorts), unsigned (sysio.eintrs), unsigned (sysio.errors));
}

// Opening, attaching, detaching and closing, with failures: states, names, descriptors
VF_CASE (c16_handles, 800, 10000)
{
    Session s; MB b = noise (20); s.put (b); s.shake(); char nodir [320]; snprintf (nodir, sizeof(nodir), "%s/no/such", g_scratch);
    const bool exc = R.chance (1, 2); Arr<int> loose;	// descriptors we own
    {
	ustl::fstream f; if (exc) f.exceptions (B::allbadbits); bool open_ = false; char nm [320] = "";
	for (unsigned i = 0, n = 1 + R.below (14); i < n; ++i) {
	    const unsigned op = R.below (8); bool th = false, ex = false; int e = 0; const char* eop = "open"; const char* efn = s.fn; char old [320]; strcpy (old, nm); const int ofd = f.fd();
	    f.clear(); int clerr = 0;
	    try { switch (op) {
		case 0: case 1: open_ = true; strcpy (nm, s.fn); f.open (s.fn, R.chance (1, 2) ? B::in : B::in | B::out | B::nocreate); break;
		case 2: ex = true; e = ENOENT; efn = nodir; open_ = false; strcpy (nm, nodir); f.open (nodir, R.chance (1, 2) ? unsigned (B::in) : B::out | B::nocreate); break;
		case 3: ex = true; e = R.chance (1, 2) ? EMFILE : EACCES; open_ = false; strcpy (nm, s.fn); sysio.eopen = e; f.open (s.fn, B::in); break;
		case 4: eop = "close"; efn = old; if (open_ && R.chance (1, 3)) { clerr = sysio.eclose = EIO; ex = true; e = EIO; } open_ = false; f.close(); break;
		case 5: { open_ = true; strcpy (nm, "attached"); int fd = open (s.fn, O_RDONLY); f.attach (fd, "attached"); } break;
		case 6: ex = true; e = -1; efn = "bad"; open_ = false; strcpy (nm, "bad"); errno = EBADF; f.attach (-1, "bad"); break;
		default: if (open_) { loose.push (ofd); } open_ = false; strcpy (nm, ""); f.detach(); break;
	    } } catch (ustl::file_exception& x) { th = true; VC (!strcmp (x.Operation(), eop) && !strcmp (x.Filename(), efn) && (e < 0 || x.Errno() == e), "exception", "operation %s file %s error %d; expected %s %s %d", x.Operation(), x.Filename(), x.Errno(), eop, efn, e); }
	    ops(); sysio.eclose = 0;
	    VC (th == (exc && ex), "throw", "operation %u: thrown %d", op, th);
	    VC (ex == !f.good() && (!ex || f.bad()), "state", "operation %u: state %x", op, unsigned (f.rdstate()));
	    VC (f.is_open() == open_ && (f.fd() >= 0) == open_, "open", "operation %u: is_open %d", op, f.is_open());
	    if (open_) VC (!strcmp (f.name().c_str(), nm), "name", "operation %u: name %s, expected %s", op, f.name().c_str(), nm);
	    if (ofd >= 0 && op != 7) VC (f.fd() == ofd || sysio.st[ofd] == 2, "descriptor-leak", "operation %u left descriptor %d open", op, ofd);
	    VC (sysio.leaked() == loose.n + open_, "descriptor-leak", "operation %u: %u descriptors open, expected %u", op, sysio.leaked(), unsigned (loose.n + open_));
	    if (open_) { char c; f.seek (3); VC (f.read (&c, 1) == 1 && c == b[3], "read", "from the file opened"); }
	    sig (hmix (op, hmix (exc, hmix (th, hmix (ofd >= 0, clerr)))));
	}
    }
    for (size_t i = 0; i < loose.n; ++i) rawclose (loose[i]);
    // streams that can not open say so, by state or exception, and own no descriptor
    { ustl::ofstream o (nodir); VC (!o.good() && !o.is_open(), "state", "ofstream of a missing directory"); o << "lost"; o.flush(); VC (!o.good(), "state", "ofstream of a missing directory became good"); }
    { ustl::ifstream o (nodir); VC (!o.good() && !o.is_open(), "state", "ifstream of a missing file"); int v = 5; o >> v; VC (!o.good(), "state", "read from nothing"); }
    { ustl::fstream o (nodir, B::in); VC (!o.good() && !o.is_open(), "state", "fstream of a missing file"); }
    { ustl::ifstream o (-1); ustl::ofstream q (-1); ustl::fstream r (-1); VC (!o.good() && !q.good() && !r.good(), "state", "streams of descriptor -1"); }
    { ustl::ofstream o; o.open (nodir); VC (!o.good(), "state", "open"); o.clear(); o.open (s.fn, B::out | B::trunc); VC (o.good() && o.is_open(), "state", "reopen"); o << "fresh"; o.close(); MB g = s.got(); VC (g.n == 5 && !memcmp (g.p, "fresh", 5), "content", "after reopening"); }
    { bool th = false; try { ustl::ofstream o; o.exceptions (B::allbadbits); o.open (nodir); } catch (ustl::file_exception& x) { th = !strcmp (x.Filename(), nodir) && x.Errno() == ENOENT; } VC (th, "throw", "ofstream::open"); }
    { bool th = false; try { ustl::ifstream o; o.exceptions (B::allbadbits); o.open (nodir); } catch (ustl::file_exception& x) { th = !strcmp (x.Filename(), nodir) && x.Errno() == ENOENT; } VC (th, "throw", "ifstream::open"); }
    s.closed();
}

// Copies from file to file and whole-file transfers of blocks
VF_CASE (c16_copy, 400, 5000)
{
    Session s; MB b = noise (fsize()); s.put (b); s.shake(); char fn2 [320]; snprintf (fn2, sizeof(fn2), "%s/copy", g_scratch); unlink (fn2);
    struct Out { char* f; ~Out (void) { unlink (f); } } out = { fn2 };
    const unsigned how = R.below (5); const bool inj = how >= 2 && R.chance (1, 3); bool reported = false; int e = 0;
    MB g; auto slurp = [&] { MB x; int fd = syscall (SYS_openat, AT_FDCWD, fn2, O_RDONLY, 0); char t [4096]; ssize_t r; while (fd >= 0 && (r = syscall (SYS_read, fd, t, sizeof(t))) > 0) x.insert (x.n, t, r); if (fd >= 0) syscall (SYS_close, fd); return x; };
    if (how == 0) { ustl::ifstream i (s.fn); ustl::ofstream o (fn2); Arr<char> t; t.resize (3000, 0); for (;;) { i.read (t.p, 1 + R.below (2999)); if (!i.gcount()) break; o.write (t.p, i.gcount()); ops(); } o.close(); VC (o.good(), "state", "copy"); g = slurp(); VC (g == b, "copy", "%zu bytes of %zu", g.n, b.n); }
    else if (how == 1) { ustl::ifstream i (s.fn); ustl::ofstream o (fn2); char c; for (;;) { i.get (c); if (!i.gcount()) break; o << c; } ops(); }
    else if (how == 2) {
	ustl::memblock m (b.p, b.n); if (inj) { e = errs[R.below (5)]; switch (R.below (3)) { case 0: sysio.eopen = e; break; case 1: sysio.eclose = e; break; default: sysio.wleft = R.below (b.n + 1); sysio.werr = e; sysio.sticky = true; } if (!b.n) sysio.wleft = -1; }
	const i64 wl = sysio.wleft; try { m.write_file (fn2, 0600); } catch (ustl::file_exception& x) { reported = true; VC (x.Errno() == e && !strcmp (x.Filename(), fn2), "exception", "error %d file %s, expected %d", x.Errno(), x.Filename(), e); }
	ops(); g = slurp(); const bool will = sysio.errors; sysio.wleft = -1; sysio.eopen = sysio.eclose = 0;
	VC (reported == will, "unreported", "write_file: errors %u, thrown %d", unsigned (sysio.errors), reported);
	if (!reported) VC (g == b, "copy", "write_file wrote %zu of %zu", g.n, b.n); else VC (g.n <= b.n && !memcmp (g.p, b.p, g.n), "copy", "failed write_file wrote other bytes"); (void) wl;
    } else if (how == 3) {
	ustl::memblock m; if (R.chance (1, 2)) m.resize (R.below (100)); const size_t sz0 = m.size();
	if (inj) { e = errs[R.below (5)]; switch (R.below (4)) { case 0: sysio.eopen = e; break; case 1: sysio.eclose = e; break; case 2: sysio.estat = e; break; default: if (b.n) { sysio.rleft = R.below (b.n); sysio.rerr = e; } } }
	try { m.read_file (s.fn); } catch (ustl::file_exception& x) { reported = true; VC (x.Errno() == e && !strcmp (x.Filename(), s.fn), "exception", "error %d file %s, expected %d", x.Errno(), x.Filename(), e); }
	ops(); const bool will = sysio.errors; sysio.rleft = -1; sysio.eopen = sysio.eclose = sysio.estat = 0;
	VC (reported == will, "unreported", "read_file: errors %u, thrown %d", unsigned (sysio.errors), reported);
	if (!reported) VC (m.size() == b.n && (!b.n || !memcmp (m.data(), b.p, b.n)), "copy", "read_file read %zu of %zu", size_t(m.size()), b.n); else VC (m.size() == sz0, "failed", "failed read_file left size %zu of %zu", size_t(m.size()), sz0);
    } else {
	// memory maps show the file and write through
	if (!b.n) { b = noise (100); s.put (b); }
	ustl::fstream f (s.fn, B::in | B::out); ustl::memlink l = f.mmap (b.n); VC (l.size() == b.n && !memcmp (l.data(), b.p, b.n), "mmap", "map of %zu", b.n);
	size_t k = R.below (b.n); l.begin()[k] ^= 0x5A; b[k] ^= 0x5A; f.msync (l); VC (f.good(), "mmap", "msync state %x", unsigned (f.rdstate())); f.munmap (l); VC (f.good() && !l.size() && !l.data(), "mmap", "munmap");
	if (b.n > 4096) { ustl::memlink q = f.mmap (b.n - 4096, 4096); VC (q.size() == b.n - 4096 && !memcmp (q.data(), b.p + 4096, q.size()), "mmap", "map at an offset"); f.munmap (q); }
	g = s.got(); VC (g == b, "mmap", "write through"); ustl::memlink bad = f.mmap (10, 3); VC (f.fail() && !bad.data() && !bad.size(), "mmap", "failed map: state %x size %zu", unsigned (f.rdstate()), size_t(bad.size())); f.clear(); ops();
    }
    if (how == 1) { g = slurp(); VC (g == b, "copy", "by characters %zu of %zu", g.n, b.n); }
    s.closed();
    sig (hmix (how, hmix (reported, hmix (b.n > 4095, hmix (b.n == 0, sysio.errors)))));
}

// The descriptor behind a stream: access to it, its state, and streams destroyed with a failure pending
VF_CASE (c16_descriptor, 500, 6000)
{
    Session s; MB b = noise (1 + fsize() / 4); for (size_t i = 0; i < b.n; ++i) if (b[i] == '\n') b[i] = 'n'; s.put (b); s.shake();
    const unsigned how = R.below (5); struct stat st; int v = 0;
    if (how == 0) {	// output stream
	ustl::ofstream o (s.fn, B::out | B::trunc); const int fd = o.fd(); VC (fd > 2 && sysio.st[fd] == 1 && o.is_open(), "fd", "%d", fd);
	MB w = noise (R.size (300)); o.write (w.p, w.n); o.flush(); o.stat (st); VC (size_t (st.st_size) == w.n && S_ISREG (st.st_mode), "stat", "%zu of %zu", size_t (st.st_size), w.n);
	o.set_nonblock(); VC (fcntl (fd, F_GETFL) & O_NONBLOCK, "nonblock", "not set"); o.set_nonblock (false); VC (!(fcntl (fd, F_GETFL) & O_NONBLOCK), "nonblock", "still set");
	VC (o.ioctl (IOCTLID (FIOCLEX)) == 0 && (fcntl (fd, F_GETFD) & FD_CLOEXEC), "ioctl", "close on exec not set"); VC (o.ioctl (IOCTLID (FIONCLEX), 0) == 0 && !(fcntl (fd, F_GETFD) & FD_CLOEXEC), "ioctl", "close on exec still set");
	v = 1; VC (o.ioctl (IOCTLID (FIONBIO), &v) == 0 && (fcntl (fd, F_GETFL) & O_NONBLOCK), "ioctl", "FIONBIO");
	VC (o.good(), "state", "%x", unsigned (o.rdstate()));
	const unsigned bit = R.chance (1, 2) ? B::failbit : B::badbit; o.setstate (bit); VC (o.fail() && !o.good() && (o.rdstate() & bit), "state", "set %x is %x", bit, unsigned (o.rdstate())); o.flush(); VC (o.rdstate() & bit, "state", "set %x is %x after a flush", bit, unsigned (o.rdstate()));
	o.clear(); VC (o.good(), "state", "cleared"); o << "tail"; w.insert (w.n, "tail", 4); o.close(); VC (o.good() && !o.is_open() && o.fd() < 0, "close", "state %x", unsigned (o.rdstate())); MB g = s.got(); VC (g == w, "content", "%zu of %zu", g.n, w.n); ops (10);
    } else if (how == 1) {	// input stream
	ustl::ifstream i (s.fn); const int fd = i.fd(); VC (fd > 2 && sysio.st[fd] == 1, "fd", "%d", fd); const size_t k = R.below (b.n + 1); Arr<char> t; t.resize (b.n + 1, 'Z');
	i.read (t.p, k); VC (i.gcount() == k && !memcmp (t.p, b.p, k), "read", "%u of %zu", unsigned (i.gcount()), k); i.clear(); i.stat (st); VC (size_t (st.st_size) == b.n, "stat", "%zu", size_t (st.st_size));
	i.set_nonblock(); VC (fcntl (fd, F_GETFL) & O_NONBLOCK, "nonblock", "not set"); i.set_nonblock (false); VC (!(fcntl (fd, F_GETFL) & O_NONBLOCK), "nonblock", "still set");
	VC (i.ioctl (IOCTLID (FIOCLEX)) == 0 && (fcntl (fd, F_GETFD) & FD_CLOEXEC), "ioctl", "close on exec not set"); VC (i.ioctl (IOCTLID (FIONCLEX), 0) == 0 && !(fcntl (fd, F_GETFD) & FD_CLOEXEC), "ioctl", "close on exec still set");
	VC (i.ioctl (IOCTLID (FIONREAD), &v) == 0 && v == int (b.n - syscall (SYS_lseek, fd, 0, SEEK_CUR)), "ioctl", "FIONREAD %d", v);
	const unsigned bit = R.chance (1, 2) ? B::failbit : B::badbit; i.setstate (bit); VC (i.fail() && !i.good() && (i.rdstate() & bit), "state", "set %x is %x", bit, unsigned (i.rdstate())); i.clear(); VC (i.good(), "state", "cleared");
	if (R.chance (1, 2)) {	// sync discards what was buffered and no more
	    const int r = i.sync(); const size_t at = i.tellg(); VC (at >= k && at <= b.n, "sync", "position %zu after %zu of %zu", at, k, b.n); VC ((r == 0) == i.good() && (r == 0 || r == -1), "sync", "returned %d in state %x", r, unsigned (i.rdstate())); i.clear();
	    i.read (t.p, b.n - at); VC (i.gcount() == b.n - at && !memcmp (t.p, b.p + at, b.n - at), "sync", "other bytes from %zu", at);
	} else { i.read (t.p, b.n - k); VC (i.gcount() == b.n - k && !memcmp (t.p, b.p + k, b.n - k), "read", "rest from %zu", k); }
	ops (10);
    } else if (how == 2) {	// direct file
	ustl::fstream f (s.fn, B::in | B::out); struct flock fl; memset (&fl, 0, sizeof(fl)); fl.l_type = F_WRLCK; VC (f.fcntl (FCNTLID (F_GETLK), &fl) == 0 && fl.l_type == F_UNLCK, "fcntl", "lock %d", fl.l_type);
	VC (f.ioctl (IOCTLID (FIONREAD), &v) == 0 && v == int (b.n), "ioctl", "FIONREAD %d of %zu", v, b.n); VC (f.fcntl (FCNTLID (F_SETFD), int (FD_CLOEXEC)) == 0 && f.fcntl (FCNTLID (F_GETFD)) == FD_CLOEXEC, "fcntl", "close on exec");
	f.seek (R.below (b.n + 1)); const off_t at = f.pos(); VC (f.ioctl (IOCTLID (FIONREAD), &v) == 0 && v == int (b.n - at), "ioctl", "FIONREAD %d at %zd", v, ssize_t (at)); VC (f.good(), "state", "%x", unsigned (f.rdstate())); ops (5);
    } else {	// destroyed with data that can not be written: no exception escapes, the descriptor is closed, what was written is a prefix
	MB w = noise (1 + R.size (2000)); { ustl::ofstream o (s.fn, B::out | B::trunc); if (how == 3) o.exceptions (B::allbadbits); o.write (w.p, w.n); sysio.wleft = R.below (w.n); sysio.werr = errs[R.below (5)]; sysio.sticky = true; ops(); }
	sysio.wleft = -1; MB g = s.got(); VC (g.n < w.n && !memcmp (g.p, w.p, g.n), "content", "%zu bytes after a failed destruction of %zu", g.n, w.n);
    }
    s.closed();
    sig (hmix (how, hmix (b.n > 4095, hmix (b.n > 100, hmix (sysio.shorts > 3, sysio.eintrs > 3)))));
}

// Arguments left out: files are opened for what the kind of stream does, created with 0644, positions count from the beginning
VF_CASE (c16_defaults, 300, 4000)
{
    Session s; MB b = noise (1 + R.size (300)), w = noise (1 + R.size (300)); struct Mask { mode_t m; ~Mask (void) { umask (m); } } mask = { umask (022) }; struct stat st;
    auto mode = [&] { return syscall (SYS_newfstatat, AT_FDCWD, s.fn, &st, 0) ? -1 : int (st.st_mode & 0777); };
    const unsigned how = R.below (7); const bool was = how != 0 && R.chance (2, 3); if (was) s.put (b); else b.clear();
    s.shake();
    auto over = [&] { MB x (b); for (size_t i = 0; i < w.n; ++i) if (i < x.n) x[i] = w[i]; else x.push (w[i]); return x; };
    switch (how) {
	case 0: { ustl::memblock m (w.p, w.n); m.write_file (s.fn); VC (mode() == 0644 && s.got() == w, "create", "write_file made mode %o", mode()); } break;
	case 1: { ustl::fstream f; if (R.chance (1, 2)) f.open (s.fn, B::out); else f.open (s.fn, B::in | B::out); VC (f.write (w.p, w.n) == off_t(w.n) && f.good(), "write", "state %x", unsigned (f.rdstate())); f.close(); VC (mode() == 0644 && s.got() == over(), "create", "mode %o", mode()); } break;
	case 2: { ustl::fstream f (s.fn); VC (f.is_open() && f.good(), "open", "state %x", unsigned (f.rdstate())); VC (f.write (w.p, w.n) == off_t(w.n) && f.good(), "write", "state %x", unsigned (f.rdstate()));
	    MB x = over(); size_t at = R.below (x.n); switch (R.below (3)) { case 0: f.seekg (at); break; case 1: f.seekp (at); break; default: VC (f.seek (at) == off_t(at), "seek", "to %zu", at); } VC (f.pos() == off_t(at), "position", "%zd after seeking to %zu", ssize_t (f.pos()), at);
	    MB t; t.resize (x.n - at + 1, 'Z'); VC (f.read (t.p, x.n - at) == off_t(x.n - at) && !memcmp (t.p, x.p + at, x.n - at), "read", "from %zu of %zu", at, x.n); f.close(); VC (mode() == 0644, "create", "mode %o", mode()); } break;
	case 3: { if (!was) s.put (b); int fd = syscall (SYS_openat, AT_FDCWD, s.fn, O_RDWR, 0); ustl::fstream f; f.open ("/dev/null", B::in); f.attach (fd); VC (f.fd() == fd && f.name().empty(), "name", "attached as %s", f.name().c_str());
	    f.set_nonblock(); VC (fcntl (fd, F_GETFL) & O_NONBLOCK, "nonblock", "not set"); f.set_nonblock (false); VC (!(fcntl (fd, F_GETFL) & O_NONBLOCK), "nonblock", "still set");
	    fcntl (fd, F_SETFD, FD_CLOEXEC); VC (f.fcntl (FCNTLID (F_SETFD)) == 0 && !(fcntl (fd, F_GETFD) & FD_CLOEXEC), "fcntl", "close on exec still set"); rawclose (fd); f.detach(); sysio.on = false; sig (how); ops(); return; }
	case 4: { ustl::ofstream o (s.fn); o.write (w.p, w.n); o.flush(); VC (o.good(), "write", "state %x", unsigned (o.rdstate())); size_t at = R.below (w.n); o.seekp (at); VC (o.good(), "seek", "state %x", unsigned (o.rdstate())); o << '#'; o.close(); w[at] = '#'; VC (mode() == 0644 && s.got() == over(), "content", "mode %o", mode()); } break;
	case 5: { ustl::ofstream o; o.open (s.fn); o.write (w.p, w.n); o.close(); VC (o.good() && mode() == 0644 && s.got() == over(), "content", "mode %o", mode()); } break;
	default: { if (!was) { b = w; s.put (b); } const MB old (s.got()); { ustl::ifstream i; if (R.chance (1, 2)) i.open (s.fn); else { ustl::ifstream j (s.fn); VC (j.good() && (fcntl (j.fd(), F_GETFL) & O_ACCMODE) == O_RDONLY, "open", "state %x", unsigned (j.rdstate())); i.open (s.fn); }
	    VC (i.good() && (fcntl (i.fd(), F_GETFL) & O_ACCMODE) == O_RDONLY, "open", "state %x", unsigned (i.rdstate())); size_t at = R.below (b.n); i.seekg (at); char c = 0; i.read (&c, 1); VC (i.gcount() == 1 && c == b[at], "read", "at %zu", at); } VC (s.got() == old, "content", "changed by reading"); } break;
    }
    ops (4); s.closed(); sig (hmix (how, was));
}

// Sparse files beyond 2^31 and 2^32: offsets are not narrowed anywhere
VF_CASE (c16_sparse, 60, 1500)
{
    Session s; struct Ext { u64 at; size_t n; char b [600]; } x [12]; unsigned nx = 0; u64 size = 0;
    static const u64 marks[] = { 0, 1ull << 31, 1ull << 32, 3ull << 31, 1ull << 33, 5000000000ull, 1ull << 34, (1ull << 32) + (1ull << 31) };
    { int fd = syscall (SYS_openat, AT_FDCWD, s.fn, O_CREAT | O_WRONLY | O_TRUNC, 0644); const bool can = ftruncate (fd, off_t (1) << 35) == 0; syscall (SYS_close, fd); unlink (s.fn); if (!can) return; }
    const unsigned how = R.below (2), ns = 2 + R.below (8); s.shake();
    {
	ustl::fstream f; ustl::ofstream o; if (how) f.open (s.fn, B::in | B::out); else o.open (s.fn, B::out | B::trunc);
	u64 pos = 0;
	for (unsigned i = 0; i < ns; ++i) {
	    u64 to = marks[R.below (8)] + R.range (-700, 700); if (i64 (to) < 0) to = 5;
	    Ext& e = x[nx]; e.n = 1 + R.below (R.chance (1, 2) ? 20 : 600); e.at = to; for (size_t j = 0; j < e.n; ++j) e.b[j] = 1 + R.below (255);
	    bool clash = false; for (unsigned j = 0; j < nx; ++j) clash |= e.at < x[j].at + x[j].n && x[j].at < e.at + e.n;
	    if (clash) continue;
	    const unsigned wh = R.below (3); const i64 off = wh == 0 ? i64 (to) : wh == 1 ? i64 (to) - i64 (pos) : i64 (to) - i64 (size);
	    if (how) {
		const off_t r = f.seek (off, B::seekdir (wh)); VC (u64 (r) == to && f.good(), "seek", "seek to %lld from %u returned %lld, expected %llu", (long long) off, wh, (long long) r, (unsigned long long) to);
		VC (u64 (f.pos()) == to && u64 (f.tellg()) == to && u64 (f.tellp()) == to, "pos", "%lld after a seek to %llu", (long long) f.pos(), (unsigned long long) to);
		VC (size_t (f.write (e.b, e.n)) == e.n && f.good(), "write", "%zu at %llu", e.n, (unsigned long long) to);
	    } else {
		if (wh == 0) o.seekp (off); else o.seekp (off, B::seekdir (wh)); VC (o.good() && u64 (o.tellp()) == to, "seekp", "at %lld after seekp (%lld, %u), expected %llu", (long long) o.tellp(), (long long) off, wh, (unsigned long long) to);
		o.write (e.b, e.n); VC (o.good() && u64 (o.tellp()) == to + e.n, "tellp", "%lld, expected %llu", (long long) o.tellp(), (unsigned long long) (to + e.n)); o.flush(); VC (o.good(), "flush", "state %x", unsigned (o.rdstate()));
	    }
	    ++nx; pos = to + e.n; if (pos > size) size = pos;
	    if (how) { VC (u64 (f.pos()) == pos, "pos", "%lld, expected %llu", (long long) f.pos(), (unsigned long long) pos); VC (u64 (f.size()) == size, "size", "%lld, expected %llu", (long long) f.size(), (unsigned long long) size); }
	    else { struct stat st; o.stat (st); VC (u64 (st.st_size) == size, "stat", "%lld, expected %llu", (long long) st.st_size, (unsigned long long) size); }
	    ops (2);
	}
	if (how) { f.close(); VC (f.good(), "close", "state %x", unsigned (f.rdstate())); } else { o.close(); VC (o.good(), "close", "state %x", unsigned (o.rdstate())); }
    }
    {	// the file has these bytes at these places and nothing else near them
	ustl::fstream f (s.fn, B::in | B::out); ustl::ifstream in (s.fn); VC (f.good() && in.good() && u64 (f.size()) == size, "size", "%lld, expected %llu", (long long) f.size(), (unsigned long long) size);
	u64 ip = 0;
	for (unsigned i = 0; i < 2 * nx; ++i) {
	    const u64 at = x[R.below (nx)].at - R.below (3) + R.below (8); if (at >= size) continue; size_t k = 1 + R.below (700); if (at + k > size) k = size - at;
	    Arr<char> e; e.resize (k, 0); for (unsigned j = 0; j < nx; ++j) for (size_t q = 0; q < x[j].n; ++q) if (x[j].at + q >= at && x[j].at + q < at + k) e[x[j].at + q - at] = x[j].b[q];
	    Arr<char> t; t.resize (k, 'Z'); const unsigned what = R.below (3);
	    if (what == 0) { f.seek (at); VC (size_t (f.read (t.p, k)) == k && f.good(), "read", "%zu at %llu", k, (unsigned long long) at); VC (!memcmp (t.p, e.p, k), "read", "other bytes at %llu", (unsigned long long) at); VC (u64 (f.pos()) == at + k, "pos", "%lld", (long long) f.pos()); }
	    else if (what == 1) {
		const unsigned wh = R.below (3); const i64 off = wh == 0 ? i64 (at) : wh == 1 ? i64 (at) - i64 (ip) : i64 (at) - i64 (size);
		in.seekg (off, B::seekdir (wh)); VC (in.good() && u64 (in.tellg()) == at, "seekg", "at %lld after seekg (%lld, %u), expected %llu", (long long) in.tellg(), (long long) off, wh, (unsigned long long) at);
		in.read (t.p, k); VC (in.gcount() == k && !memcmp (t.p, e.p, k), "read", "%u of %zu from %llu", unsigned (in.gcount()), k, (unsigned long long) at); in.clear(); ip = in.tellg(); VC (ip == at + k, "tellg", "%llu, expected %llu", (unsigned long long) ip, (unsigned long long) (at + k));
	    } else { const u64 pg = at & ~u64 (4095); ustl::memlink l = f.mmap (at - pg + k, pg); VC (f.good() && l.size() == at - pg + k && !memcmp (l.begin() + (at - pg), e.p, k), "mmap", "map of %zu at %llu", size_t (at - pg + k), (unsigned long long) pg); f.munmap (l); VC (f.good(), "munmap", "state %x", unsigned (f.rdstate())); }
	    ops();
	}
	f.close();
    }
    s.closed();
    sig (hmix (how, hmix (nx, hmix (size > (1ull << 32), size > (1ull << 31)))));
    if (want_sample()) sample ("%u extents in a sparse file of %llu bytes", nx, (unsigned long long) size);
}

// The standard streams: what is written to cout is out before cin waits for input, descriptors 0 to 2 are used and never closed
VF_CASE (c16_std, 200, 4000)
{
    Session s; char fo [320], fe [320]; snprintf (fo, sizeof(fo), "%s/so", g_scratch); snprintf (fe, sizeof(fe), "%s/se", g_scratch);
    MB in; for (size_t i = 0, n = 1 + fsize() / 6; i < n; ++i) in.push ("abcdefg \n"[R.below (9)]); in.push ('\n'); s.put (in);
    bool ok [3] = {}; i64 seen = -1; size_t due = 0, gaps = 0, reads = 0; MB got, wo, we, go, ge; unsigned ost = 0, ist = 0;
    {
	struct Redirect {	// nothing is reported while descriptors 0 to 2 are somewhere else
	    int sv [3];
	    Redirect (const char* i, const char* o, const char* e) { fflush (stdout); const char* f [3] = { i, o, e }; for (int k = 0; k < 3; ++k) { sv[k] = syscall (SYS_fcntl, k, F_DUPFD, 100); const int fd = syscall (SYS_openat, AT_FDCWD, f[k], k ? O_CREAT | O_WRONLY | O_TRUNC | O_APPEND : O_RDONLY, 0644); syscall (SYS_dup3, fd, k, 0); syscall (SYS_close, fd); sysio.st[k] = 1; } }
	    ~Redirect (void) { for (int k = 0; k < 3; ++k) { syscall (SYS_dup3, sv[k], k, 0); syscall (SYS_close, sv[k]); sysio.st[k] = 0; } }
	} red (s.fn, fo, fe);
	s.shake(); sysio.watch = 1; bool flushed = true;
	for (unsigned i = 0, ns = 1 + R.below (20); i < ns; ++i) switch (R.below (7)) {
	    case 0: case 1: { MB w = noise (R.size (300)); ustl::cout.write (w.p, w.n); wo.insert (wo.n, w.p, w.n); } break;
	    case 2: { MB w = noise (R.size (300)); ustl::cerr.write (w.p, w.n); we.insert (we.n, w.p, w.n); if (R.chance (1, 2)) ustl::cerr.flush(); } break;
	    case 3: ustl::cout.flush(); break;
	    case 4: { const int q = 1 + R.below (2); MB w = noise (R.size (300)); if (q == 1) ustl::cout.flush(); else ustl::cerr.flush(); { ustl::ofstream o (q); o.write (w.p, w.n); } MB& m = q == 1 ? wo : we; m.insert (m.n, w.p, w.n); struct stat st; flushed &= !syscall (SYS_fstat, q, &st) && size_t (st.st_size) == m.n; } break;
	    default: {	// input
		due = wo.n; sysio.watched = -1; Arr<char> t; t.resize (1 + R.below (200), 'Z');
		if (R.chance (1, 2)) { ustl::cin.read (t.p, t.n); got.insert (got.n, t.p, ustl::cin.gcount()); } else { char c = 'Z'; ustl::cin.get (c); if (ustl::cin.gcount()) got.push (c); }
		if (sysio.watched >= 0) { ++reads; if (sysio.watched != i64 (due)) ++gaps, seen = sysio.watched; }
	    } break;
	}
	ok[0] = flushed; ost = ustl::cout.rdstate(); ist = ustl::cin.rdstate(); ustl::cout.flush(); ustl::cerr.flush(); ok[1] = ustl::cout.fd() == 1 && ustl::cerr.fd() == 2 && ustl::cin.fd() == 0;
	struct stat st; ok[2] = !syscall (SYS_fstat, 0, &st) && !syscall (SYS_fstat, 1, &st) && !syscall (SYS_fstat, 2, &st);
	ustl::cin.skip (ustl::cin.remaining()); ustl::cin.clear(); sysio.on = false;
    }
    auto slurp = [] (const char* f, MB& x) { int fd = syscall (SYS_openat, AT_FDCWD, f, O_RDONLY, 0); char t [4096]; ssize_t r; while (fd >= 0 && (r = syscall (SYS_read, fd, t, sizeof(t))) > 0) x.insert (x.n, t, r); if (fd >= 0) syscall (SYS_close, fd); unlink (f); };
    slurp (fo, go); slurp (fe, ge); ops (1 + reads);
    VC (!gaps, "tie", "cin read its descriptor with %lld of %zu bytes of cout written, %zu times", (long long) seen, due, gaps);
    VC (ok[0], "std-destroy", "a stream over descriptor 1 or 2 was destroyed without its text being written"); VC (ok[1], "std-fd", "descriptors of cin, cout, cerr"); VC (ok[2], "std-closed", "a standard descriptor was closed");
    VC (!ost, "std-state", "cout is in state %x", ost); VC (got.n <= in.n && !memcmp (got.p, in.p, got.n), "std-read", "cin gave other bytes among %zu", got.n); VC (!ist || got.n == in.n, "std-state", "cin is in state %x after %zu of %zu", ist, got.n, in.n);
    VC (go == wo, "std-content", "descriptor 1 has %zu bytes, expected %zu", go.n, wo.n); VC (ge == we, "std-content", "descriptor 2 has %zu bytes, expected %zu", ge.n, we.n);
    s.closed();
    sig (hmix (reads > 3 ? 3 : reads, hmix (wo.n > 300, hmix (we.n > 300, ist))));
}
}
