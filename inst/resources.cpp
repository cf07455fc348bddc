// Instantiates the header-only resource templates so that the type-checked
// bodies of every member are available to the analyses.  Nothing here is run.
#include <string>
#include <memory>
#include "sparta/resources/Queue.hpp"
#include "sparta/resources/Buffer.hpp"
#include "sparta/resources/CircularBuffer.hpp"
#include "sparta/resources/Array.hpp"
#include "sparta/resources/FrontArray.hpp"
#include "sparta/resources/Pipe.hpp"
#include "sparta/resources/Pipeline.hpp"
#include "sparta/resources/PriorityQueue.hpp"
#include "sparta/resources/Scoreboard.hpp"
#include "sparta/resources/SharedData.hpp"
#include "sparta/utils/FastList.hpp"
#include "sparta/utils/ValidValue.hpp"
#include "sparta/kernel/ObjectAllocator.hpp"
#include "sparta/utils/SpartaSharedPointer.hpp"
#include "sparta/utils/SpartaSharedPointerAllocator.hpp"
struct VpElem { std::string s; uint64_t v = 0; VpElem() = default; explicit VpElem(uint64_t x) : v(x) {}
    bool operator==(const VpElem& o) const { return v == o.v; } };
inline std::ostream& operator<<(std::ostream& o, const VpElem& e) { return o << e.v; }
namespace sparta {
template class Queue<VpElem>;
template class Buffer<VpElem>;
template class CircularBuffer<VpElem>;
template class Array<VpElem, ArrayType::NORMAL>;
template class Array<VpElem, ArrayType::AGED>;
template class Pipe<VpElem>;
template class Pipeline<VpElem>;
template class SharedData<VpElem, true>;
template class utils::ValidValue<VpElem>;
template class utils::FastList<VpElem>;
template class SpartaSharedPointer<VpElem>;
template class SpartaWeakPointer<VpElem>;
template class SpartaSharedPointerAllocator<VpElem>;
template class PriorityQueue<uint64_t>;
}
template class sparta::ObjectAllocator<VpElem>;
void vp_use(sparta::Queue<VpElem>& q, sparta::Buffer<VpElem>& b, sparta::CircularBuffer<VpElem>& c,
            sparta::Array<VpElem>& a, sparta::Array<VpElem, sparta::ArrayType::AGED>& aa, sparta::FrontArray<VpElem, sparta::ArrayType::NORMAL>& fa,
            sparta::Pipe<VpElem>& p, sparta::utils::FastList<VpElem>& fl,
            sparta::ObjectAllocator<VpElem>& oa, sparta::SpartaSharedPointerAllocator<VpElem>& spa)
{
    VpElem e;
    q.push(e); q.push(VpElem());
    { auto i = q.begin(); ++i; --i; i++; i--; (void)*i; i->v = 1; (void)(i == q.end()); (void)i.isValid(); const auto& cq = q; auto ci = cq.begin(); ++ci; --ci; (void)*ci; (void)ci.isValid(); (void)(i < i); (void)i.getIndex(); (void)(i != i); (void)(i > i);}
    b.push_back(e); b.push_back(VpElem()); b.insert(0, e); b.insert(b.begin(), e); b.insert(0, VpElem()); b.insert(b.begin(), VpElem());
    { auto i = b.begin(); ++i; --i; (void)*i; (void)i.isValid(); (void)i->v; b.erase(i); b.erase(0u); b.erase(b.rbegin()); b.rend(); (void)(i == i); (void)(i < i); i = i;
      const auto& cb = b; auto ci = cb.begin(); ++ci; --ci; (void)*ci; }
    c.push_back(e); c.push_back(VpElem()); c.insert(c.begin(), e); c.insert(c.begin(), VpElem()); c.erase(c.begin()); 
    { auto i = c.begin(); ++i; --i; (void)*i; (void)i.isValid(); (void)i->v; (void)(i == i); (void)(i < i); (void)(i != i);
      const auto& cc = c; auto ci = cc.begin(); ++ci; --ci; (void)*ci; }
    a.write(0, e); a.write(0, VpElem()); a.erase(0); a.erase(a.begin()); { auto i = a.begin(); ++i; (void)*i; (void)i.isValid(); (void)i.getIndex(); (void)i->v; (void)(i == i); (void)(i != i);}
    aa.write(0, e); aa.write(0, VpElem()); aa.erase(0); aa.erase(aa.begin()); { auto i = aa.begin(); ++i; (void)*i; (void)i.isValid(); auto g = aa.abegin(); ++g; (void)*g;  aa.aend(); }
    fa.isValid(0); fa.push_front(e); fa.push_back(e); fa.readValid(0); fa.writeFront(e); fa.writeBack(e); fa.writeFront(VpElem()); fa.writeBack(VpElem());
    p.append(e); p.append(VpElem()); p.writePS(0, e); p.writePS(0, VpElem()); p.push_front(e); p.push_front(VpElem());
    { auto i = p.begin(); ++i; (void)*i; (void)i.isValid(); (void)(i == p.end()); }
    fl.emplace_back(e); fl.emplace_front(e); fl.emplace(fl.begin(), e); fl.insert(fl.begin(), e); fl.erase(fl.begin()); { auto i = fl.begin(); ++i; (void)*i; (void)i->v; (void)(i == i); (void)(i != i);}
    oa.create(); oa.free(oa.create());
    { auto sp = sparta::allocate_sparta_shared_pointer<VpElem>(spa); auto sp2 = sp; sp2 = sp; sp2 = std::move(sp); sp2.reset(); sp2.reset(new VpElem); (void)*sp2; (void)sp2->v; sparta::SpartaWeakPointer<VpElem> w(sp2); auto l = w.lock(); w = sp2; auto w2 = w; w2 = w; w2.expired(); }
}
