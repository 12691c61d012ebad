// Deferred commands: any number of pending commands
#include "vp.h"
#include <DRAMPower/util/ImplicitCommandHandler.h>
#include VP_GEN
using namespace DRAMPower;
struct Log { std::vector<uint64_t> ids; };
// a queue holding n commands in time order, then one more added through the public interface, then processed
// (every queue reachable through the public interface has this form: the insertion lemma re-establishes the order)
template <class H, class Fill, class Add, class Run> static void history(H& h, Log& log, Fill fill, Add add, Run run) {
    auto ts = vp::any<std::vector<uint64_t>>("ts");
    std::size_t n = ts.size();
    if (vp::searching()) std::sort(ts.begin(), ts.end());
    vp::requires_(vp::forall(n, [&](std::size_t i) { return i == 0 || ts[i - 1] <= ts[i]; }));
    for (std::size_t i = 0; i < n; ++i) fill(ts[i], i);
    uint64_t t = vp::any<uint64_t>("t");
    std::size_t p = vp::any<std::size_t>("p");
    if (vp::searching()) for (p = 0; p < n && ts[p] <= t; ++p) {}
    // p: the number of pending commands due no later than t
    vp::requires_(p <= n && vp::forall(n, [&](std::size_t i) { return (i < p) == (ts[i] <= t); }));
    add(t, n);
    vp::ensures(h.implicitCommandCount() == n + 1, "every added command is pending");
    vp::ensures(vp::forall(n + 1, [&](std::size_t i) { return h.m_implicitCommandList[i].first == (i < p ? ts[i] : i == p ? t : ts[i - 1]); }), "the queue stays in time order");
    uint64_t now = vp::any<uint64_t>("now"), last = vp::any<uint64_t>("last"), last0 = last;
    run(now, last);
    std::size_t m = log.ids.size();
    vp::ensures(m <= n + 1 && h.implicitCommandCount() == n + 1 - m, "a command is executed or still pending");
    vp::ensures(vp::forall(m, [&](std::size_t i) { return log.ids[i] == (i < p ? i : i == p ? n : i - 1); }), "executed in time order, ties in order of addition, once each");
    vp::ensures(vp::forall(m, [&](std::size_t i) { return (i < p ? ts[i] : i == p ? t : ts[i - 1]) <= now; }), "nothing is executed early");
    vp::ensures(m == n + 1 || (m < p ? ts[m] : m == p ? t : ts[m - 1]) > now, "everything due is executed");
    vp::ensures(last == (m == 0 ? last0 : m - 1 < p ? ts[m - 1] : m - 1 == p ? t : ts[m - 2]), "the time of the last executed command is reported");
}
void vp_lemma_any_plain() {
    Log log;
    ImplicitCommandHandler<void> h;
    auto mk = [&log](uint64_t i) -> std::function<void()> { return [&log, i]() { log.ids.push_back(i); }; };
    history(h, log, [&](uint64_t t, uint64_t i) { h.m_implicitCommandList.emplace_back(t, mk(i)); }, [&](uint64_t t, uint64_t i) { h.addImplicitCommand(t, mk(i)); },
            [&](uint64_t now, uint64_t& last) { h.processImplicitCommandQueue(now, last); });
}
void vp_lemma_any_context() {
    Log log;
    ImplicitCommandHandler<Log> h;
    auto mk = [](uint64_t i) -> std::function<void(Log&)> { return [i](Log& l) { l.ids.push_back(i); }; };
    history(h, log, [&](uint64_t t, uint64_t i) { h.m_implicitCommandList.emplace_back(t, mk(i)); }, [&](uint64_t t, uint64_t i) { h.addImplicitCommand(t, mk(i)); },
            [&](uint64_t now, uint64_t& last) { h.processImplicitCommandQueue(log, now, last); });
}
