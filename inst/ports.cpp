// ports, buses, events and the data containers
#include <string>
#include "sparta/ports/Port.hpp"
#include "sparta/ports/DataPort.hpp"
#include "sparta/ports/SignalPort.hpp"
#include "sparta/ports/SyncPort.hpp"
#include "sparta/ports/ExportedPort.hpp"
#include "sparta/ports/Bus.hpp"
#include "sparta/ports/PortSet.hpp"
#include "sparta/events/Event.hpp"
#include "sparta/events/EventSet.hpp"
#include "sparta/events/UniqueEvent.hpp"
#include "sparta/events/SingleCycleUniqueEvent.hpp"
#include "sparta/events/PayloadEvent.hpp"
#include "sparta/events/AsyncEvent.hpp"
#include "sparta/events/GlobalEvent.hpp"
#include "sparta/events/StartupEvent.hpp"
#include "sparta/events/GlobalOrderingPoint.hpp"
#include "sparta/events/Precedence.hpp"
#include "sparta/kernel/SleeperThread.hpp"
#include "sparta/kernel/DAG.hpp"
struct VpElem { std::string s; uint64_t v = 0; VpElem() = default; explicit VpElem(uint64_t x) : v(x) {}
    bool operator==(const VpElem& o) const { return v == o.v; } };
inline std::ostream& operator<<(std::ostream& o, const VpElem& e) { return o << e.v; }
namespace sparta {
template class DataInPort<VpElem>;
template class DataOutPort<VpElem>;
template class SyncInPort<VpElem>;
template class SyncOutPort<VpElem>;
template class PhasedPayloadEvent<VpElem>;
template class PayloadEvent<VpElem>;
template class UniqueEvent<>;
template class SingleCycleUniqueEvent<>;
template class Event<>;
template class AsyncEvent<>;
template class GlobalEvent<>;
template class DataContainer<VpElem>;
}
void vp_use(sparta::PayloadEvent<VpElem>& pe, sparta::PayloadEvent<uint32_t, sparta::SchedulingPhase::Flush>& pe2, sparta::UniqueEvent<>& ue,
            sparta::UniqueEvent<sparta::SchedulingPhase::PortUpdate>& ue2,
            sparta::SingleCycleUniqueEvent<>& se, sparta::Event<>& ev, sparta::Event<sparta::SchedulingPhase::Collection>& ev2, sparta::Scheduleable& s1, sparta::Scheduleable& s2,
            sparta::GlobalOrderingPoint& gop, sparta::InPort& ip, sparta::Scheduler& sch)
{
    ev >> ev; ev >> ue; ue >> ev; ue >> ue; pe >> pe; pe >> ev; ev >> pe; pe >> ue; ue >> pe; s1 >> s2; se >> se;
    gop >> ev; ev >> gop; gop >> ue; ue >> gop; pe >> gop; gop >> pe;
    pe.preparePayload(VpElem())->schedule(1); pe.preparePayload(VpElem())->schedule();
    pe.cancel(); pe.cancel(sparta::Clock::Cycle(1)); pe.getNumOutstandingEvents();
    (void)ip; (void)s1; (void)s2; (void)ev2; (void)ue2; (void)pe2;
    sparta::GlobalEvent<> ge(nullptr, sparta::SpartaHandler("x")); ge.schedule(1); sparta::GlobalEvent<> g2(ge); g2 = ge; g2 = std::move(ge); sparta::GlobalEvent<> g3(std::move(g2));
    (void)sch;
}
