// An element whose every construction, copy, assignment and destruction is
// recorded. Objects are known by an id stored in them, because the containers
// relocate elements bitwise by design.
#pragma once
#include "elems.h"
namespace vf {
struct Track {
    static uint8_t* state;	// by id: 0 never made, 1 alive, 2 destroyed
    static uint32_t next, cap; static int64_t live; static uint64_t events;
    static void reset (void) { if (!state) { cap = 1 << 22; state = (uint8_t*) guard_alloc (cap); } memset (state, 0, next < cap ? next : cap); next = 1; live = 0; }
    static uint32_t make (void) { if (next >= cap) { fprintf (stderr, "vf: too many tracked objects\n"); _Exit (96); } ++events; ++live; state[next] = 1; return next++; }
    static bool alive (uint32_t id) { return id && id < next && state[id] == 1; }
    static void need (uint32_t id, const char* what) {
	++events;
	if (!alive (id)) note_fail (id && id < next ? "use-after-destroy" : "use-of-raw-memory", "%s of an object that is %s (id %u of %u)", what, id && id < next ? "already destroyed" : "not constructed", id, next);
    }
    static void kill (uint32_t id) {
	++events;
	if (!alive (id)) { note_fail (id && id < next ? "double-destroy" : "destroy-raw-memory", "destruction of an object that is %s (id %u of %u)", id && id < next ? "already destroyed" : "not constructed", id, next); return; }
	state[id] = 2; --live;
    }
};
#ifdef TRACK_DEFINE
uint8_t* Track::state = nullptr; uint32_t Track::next = 1, Track::cap = 0; int64_t Track::live = 0; uint64_t Track::events = 0;
#endif
struct Tracked {
    uint32_t id; int v;
    Tracked (void) : id (Track::make()), v (0) {}
    Tracked (int x) : id (Track::make()), v (x) {}
    Tracked (const Tracked& t) : id (0), v (t.v) { Track::need (t.id, "copy construction"); id = Track::make(); }
    Tracked (Tracked&& t) : id (0), v (t.v) { Track::need (t.id, "move construction"); id = Track::make(); t.v = -5; }
    Tracked& operator= (const Tracked& t) { Track::need (t.id, "assignment from"); Track::need (id, "assignment to"); v = t.v; return *this; }
    Tracked& operator= (Tracked&& t) { Track::need (t.id, "move assignment from"); Track::need (id, "move assignment to"); int x = t.v; t.v = -5; v = x; return *this; }
    ~Tracked (void) { Track::kill (id); }
    bool operator== (const Tracked& t) const { Track::need (id, "comparison"); Track::need (t.id, "comparison"); return v == t.v; }
    bool operator!= (const Tracked& t) const { return !(*this == t); }
    bool operator< (const Tracked& t) const { Track::need (id, "comparison"); Track::need (t.id, "comparison"); return v < t.v; }
    bool operator<= (const Tracked& t) const { return !(t < *this); }
};
template <> struct Elem<Tracked> { enum { MOD = 1 << 30, ZERO = 0 }; static Tracked mk (int i) { return Tracked (i); } static int val (const Tracked& t) { Track::need (t.id, "access"); return t.v; } static const char* name (void) { return "tracked"; } };
}
