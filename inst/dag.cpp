// every way of stating that one event precedes another
#include <memory>
#include "sparta/events/Precedence.hpp"
#include "sparta/events/Event.hpp"
#include "sparta/events/UniqueEvent.hpp"
#include "sparta/events/SingleCycleUniqueEvent.hpp"
#include "sparta/events/PayloadEvent.hpp"
#include "sparta/events/GlobalOrderingPoint.hpp"
#include "sparta/ports/Port.hpp"
#include "sparta/ports/Bus.hpp"
#include "sparta/kernel/DAG.hpp"
#include "sparta/kernel/Scheduler.hpp"
using namespace sparta;
void vp_use(PayloadEvent<uint64_t>& pe, PayloadEvent<double>& pe2, UniqueEvent<>& ue, SingleCycleUniqueEvent<>& se, Event<>& ev, Scheduleable& s1, Scheduleable& s2,
            GlobalOrderingPoint& gop, InPort& ip, Bus& bus, std::unique_ptr<Event<>>& up, std::unique_ptr<UniqueEvent<>>& uq)
{
    pe >> pe2; pe >> ue; pe >> se; pe >> ev; ue >> pe; se >> pe; ev >> pe;
    ue >> ue; ue >> se; se >> ue; se >> se; ev >> ev; ev >> ue; ue >> ev;
    s1 >> s2; s1 >> pe; pe >> s1; s1 >> ev; ev >> s1;
    gop >> ev; ev >> gop; gop >> ue; ue >> gop; gop >> pe; pe >> gop; gop >> se; se >> gop; gop >> ip; ip >> gop;
    up >> uq; ev >> uq; up >> ue;
    s1 >> bus; bus >> s1; ev >> bus; bus >> ue;
    const EventGroup g1(ev, pe, ue), g2(ue, ev);
    g1 >> g2; g1 >> ue; ev >> g2; g1 >> s1; s1 >> g2;
    se.precedes(ue);
}
