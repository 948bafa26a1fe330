// Used by setup: the framework builds, runs and its monitors are alive.
#include "vf.h"
using namespace vf;
VF_CASE (selftest, 20, 20)
{
    // Only the monitors are under test here: nothing of the library, which the checks judge, is relied on.
    size_t n = R.size (100);
    int* v = (int*) malloc ((n + 1) * sizeof(int));
    for (size_t i = 0; i < n; ++i) { v[i] = i; VC (v[i] == int(i), "self", "element %zu", i); ops(); }
    free (v);
    sig (n);
}
VF_CASE (selftest_heap, 5, 5)
{
    HeapStats a = heap_stats(); (void) a;
    void* p = malloc (33); memset (p, 1, 33);
    if (g_has_heap) VC (heap_stats().blocks == a.blocks + 1, "self", "accounting");
    p = realloc (p, 77); free (p);
    if (g_has_heap) {
	VC (heap_stats().blocks == a.blocks, "self", "accounting");
	heap_fail_at (1);
	void *x = malloc (5), *y = malloc (5), *z = malloc (5);
	VC (x && !y && z && heap_failed(), "self", "failure injection");
	free (x); free (z);
    }
    char* g = (char*) guard_alloc (100); memset (g, 0, 100); guard_free (g, 100);
    ops (3); sig (1);
}
