// Deferred (implicit) commands
#include "vp.h"
#include <DRAMPower/util/ImplicitCommandHandler.h>
#include VP_GEN
using namespace DRAMPower;

struct Log { std::vector<uint64_t> ids; };
// any sequence of three additions: executed exactly when due, in time order, ties in the order of addition
template <class H, class Run, class Add> static void three(H& h, Log& log, Add add, Run run) {
    uint64_t t[3] = {vp::any<uint64_t>("t0"), vp::any<uint64_t>("t1"), vp::any<uint64_t>("t2")};
    uint64_t now = vp::any<uint64_t>("now"), last = vp::any<uint64_t>("last");
    uint64_t last0 = last;
    for (int i = 0; i < 3; ++i) add(t[i], uint64_t(i));
    vp::ensures(h.implicitCommandCount() == 3, "every added command is pending");
    run(now, last);
    uint64_t due = 0, latest = last0;
    bool some = false;
    for (int i = 0; i < 3; ++i) if (t[i] <= now) { due++; if (!some || t[i] >= latest) latest = t[i]; some = true; }
    vp::ensures(log.ids.size() == due && h.implicitCommandCount() == 3 - due, "exactly the commands due by now are executed, once each");
    vp::ensures(last == latest, "the time of the last executed command is reported, and nothing otherwise");
    for (std::size_t k = 0; k < log.ids.size(); ++k) {
        vp::ensures(t[log.ids[k]] <= now, "nothing is executed early");
        if (k) vp::ensures(t[log.ids[k - 1]] < t[log.ids[k]] || (t[log.ids[k - 1]] == t[log.ids[k]] && log.ids[k - 1] < log.ids[k]), "execution in time order, ties in order of addition");
    }
}
void vp_lemma_bounded_plain() {
    Log log;
    ImplicitCommandHandler<void> h;
    three(h, log, [&](uint64_t t, uint64_t i) { h.addImplicitCommand(t, [&log, i]() { log.ids.push_back(i); }); },
          [&](uint64_t now, uint64_t& last) { h.processImplicitCommandQueue(now, last); });
}
void vp_lemma_bounded_context() {
    Log log;
    ImplicitCommandHandler<Log> h;
    three(h, log, [&](uint64_t t, uint64_t i) { h.addImplicitCommand(t, [i](Log& l) { l.ids.push_back(i); }); },
          [&](uint64_t now, uint64_t& last) { h.processImplicitCommandQueue(log, now, last); });
}
