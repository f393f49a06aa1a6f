// what the stand-ins observed, and the failure injection
#include "PTL/ptl.hh"
extern "C" {
void accel_set(long delay_us, long fail_after)
{
    ptl_observed().delay_us   = delay_us;
    ptl_observed().fail_after = fail_after;
}
void accel_get(long* o)
{
    auto& p = ptl_observed();
    o[0] = p.pools; o[1] = p.threads; o[2] = p.tasks; o[3] = p.max_running; o[4] = p.running;
    p.max_running = 0;
}
}
