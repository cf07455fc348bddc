// statistics, notification, triggers, parameters, utilities
#include <string>
#include "sparta/statistics/Counter.hpp"
#include "sparta/statistics/CycleCounter.hpp"
#include "sparta/statistics/ReadOnlyCounter.hpp"
#include "sparta/statistics/Histogram.hpp"
#include "sparta/statistics/BasicHistogram.hpp"
#include "sparta/statistics/CycleHistogram.hpp"
#include "sparta/statistics/ContextCounter.hpp"
#include "sparta/statistics/StatisticInstance.hpp"
#include "sparta/log/NotificationSource.hpp"
#include "sparta/trigger/SingleTrigger.hpp"
#include "sparta/trigger/ExpressionTrigger.hpp"
#include "sparta/trigger/TriggerManager.hpp"
#include "sparta/simulation/Parameter.hpp"
#include "sparta/simulation/ParameterSet.hpp"
#include "sparta/simulation/ParameterTree.hpp"
#include "sparta/simulation/State.hpp"
#include "sparta/simulation/StateTracker.hpp"
#include "sparta/simulation/Clock.hpp"
#include "sparta/simulation/ClockManager.hpp"
#include "sparta/utils/BitArray.hpp"
#include "sparta/utils/LockedValue.hpp"
#include "sparta/utils/Rational.hpp"
#include "sparta/utils/MathUtils.hpp"
#include "sparta/utils/StringManager.hpp"
#include "sparta/pipeViewer/Outputter.hpp"
#include "sparta/pipeViewer/InformationWriter.hpp"
struct VpNote { uint64_t v = 0; };
inline std::ostream& operator<<(std::ostream& o, const VpNote& e) { return o << e.v; }
namespace sparta {
template class NotificationSource<VpNote>;
template class Parameter<uint32_t>;
template class Parameter<std::string>;
template class Parameter<std::vector<uint32_t>>;
template class Parameter<std::vector<std::vector<uint32_t>>>;
template class utils::LockedValue<uint64_t>;
template class utils::Rational<uint64_t>;
template class BasicHistogram<uint64_t>;
}
