// Planted faults, one per monitor: setup runs each under each monitor that claims to see it and requires the report.
#include "vf.h"
#include <pthread.h>
using namespace vf;
namespace {
char* volatile g_p; volatile int g_i = 0x7fffffff, g_n = 64; int g_race;
void* racer (void*) { for (int i = 0; i < 1000; ++i) ++g_race; return nullptr; }
}
VF_CASE (fault_overrun, 1, 1)	{ g_p = (char*) malloc (100); for (int i = 0; i <= 100; ++i) g_p[i] = 1; free (g_p); ops(); }
VF_CASE (fault_underrun, 1, 1)	{ g_p = (char*) malloc (100); g_p[-1] = 1; free (g_p); ops(); }
VF_CASE (fault_overread, 1, 1)	{ g_p = (char*) malloc (96); g_i = g_p[96]; free (g_p); ops(); }
VF_CASE (fault_freed, 1, 1)	{ g_p = (char*) malloc (100); free (g_p); g_p[7] = 1; ops(); }
VF_CASE (fault_double, 1, 1)	{ g_p = (char*) malloc (100); free (g_p); free (g_p); ops(); }
VF_CASE (fault_foreign, 1, 1)	{ g_p = (char*) malloc (100); free (g_p + 16); ops(); }
VF_CASE (fault_leak, 1, 1)	{ g_p = (char*) malloc (100); g_p = nullptr; ops(); }
VF_CASE (fault_borrowed, 1, 1)	{ g_p = (char*) ro_copy ("abc", 3); g_p[1] = 'x'; ops(); }
VF_CASE (fault_beyond, 1, 1)	{ g_p = (char*) ro_copy ("abc", 3); g_i = g_p[3]; ops(); }
VF_CASE (fault_stack, 1, 1)	{ char b [32]; for (int i = 0; i < g_n; ++i) ((volatile char*) b)[i] = i; ops(); }
VF_CASE (fault_arith, 1, 1)	{ g_i = g_i + 1; ops(); }
VF_CASE (fault_shift, 1, 1)	{ g_i = 1 << g_n; ops(); }
VF_CASE (fault_uninit, 1, 1)	{ g_p = (char*) malloc (100); if (g_p[50] == 3) g_i = 1; free (g_p); ops(); }
VF_CASE (fault_race, 1, 1)	{ pthread_t t[2]; for (auto& x : t) pthread_create (&x, nullptr, &racer, nullptr); for (auto& x : t) pthread_join (x, nullptr); ops(); }
VF_CASE (fault_model, 1, 1)	{ int volatile v[3] = { 7, 7, 7 }; VC (v[1] == 8, "planted", "element 1 is %d, the model has 8", v[1]); ops(); }
VF_CASE (fault_throw, 1, 1)	{ throw ustl::runtime_error ("planted"); }
VF_CASE (fault_crash, 1, 1)	{ g_p = nullptr; *g_p = 1; }
VF_CASE (fault_none, 1, 1)	{ g_p = (char*) malloc (100); memset (g_p, 0, 100); free (g_p); ops(); }
