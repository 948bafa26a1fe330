// C09: queue is first-in first-out, stack last-in first-out, priority_queue always gives a greatest element.
#include "adapt.h"
using namespace vf;
typedef ustl::string S;
#define SMP if (want_sample()) sample ("random history, final operations: see rule")
VF_CASE (c09_queue_int, 160, 4000) { queue_run<int,ustl::vector<int> >(); SMP; }
VF_CASE (c09_queue_u8_list, 80, 2000) { queue_run<uint8_t,ustl::list<uint8_t> >(); SMP; }
VF_CASE (c09_queue_string, 80, 2000) { queue_run<S,ustl::vector<S> >(); SMP; }
VF_CASE (c09_queue_P3, 80, 2000) { queue_run<P3,ustl::deque<P3> >(); SMP; }
VF_CASE (c09_stack_int, 80, 2000) { stack_run<int,ustl::vector<int> >(); SMP; }
VF_CASE (c09_stack_string, 80, 2000) { stack_run<S,ustl::list<S> >(); SMP; }
VF_CASE (c09_pq_int_less, 120, 3000) { pq_run<int,ustl::vector<int>,OrdLess<int> >(); SMP; }
VF_CASE (c09_pq_int_greater, 80, 2000) { pq_run<int,ustl::vector<int>,OrdGreater<int> >(); SMP; }
VF_CASE (c09_pq_int_class, 80, 2000) { pq_run<int,ustl::vector<int>,OrdClass<int> >(); SMP; }
VF_CASE (c09_pq_string, 60, 2000) { pq_run<S,ustl::vector<S>,OrdStr<S> >(); SMP; }
VF_CASE (c09_pq_u16_deque, 60, 2000) { pq_run<uint16_t,ustl::deque<uint16_t>,OrdLess<uint16_t> >(); SMP; }
// Thousands of elements
#define GB(n) g_big = 300 + R.below (R.chance (1, 2) ? n : n / 8)
VF_CASE (c09_big_queue, 24, 200) { GB (8000); if (R.chance (1, 2)) queue_run<int,ustl::vector<int> >(); else queue_run<uint16_t,ustl::deque<uint16_t> >(); SMP; }
VF_CASE (c09_big_stack, 24, 200) { GB (20000); if (R.chance (1, 2)) stack_run<int,ustl::vector<int> >(); else stack_run<P3,ustl::list<P3> >(); SMP; }
VF_CASE (c09_big_pq, 24, 200) { GB (2000); if (R.chance (1, 2)) pq_run<int,ustl::vector<int>,OrdLess<int> >(); else pq_run<uint16_t,ustl::deque<uint16_t>,OrdClass<uint16_t> >(); SMP; }
