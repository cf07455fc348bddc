// memory, functional state and checkpointing
#include <string>
#include "sparta/memory/MemoryObject.hpp"
#include "sparta/memory/SimpleMemoryMap.hpp"
#include "sparta/memory/SimpleMemoryMapNode.hpp"
#include "sparta/memory/BlockingMemoryIF.hpp"
#include "sparta/memory/BlockingMemoryIFNode.hpp"
#include "sparta/memory/DMIBlockingMemoryIF.hpp"
#include "sparta/memory/CachedMemory.hpp"
#include "sparta/memory/TranslationIFNode.hpp"
#include "sparta/functional/ArchData.hpp"
#include "sparta/functional/DataView.hpp"
#include "sparta/functional/Register.hpp"
#include "sparta/functional/RegisterSet.hpp"
#include "sparta/functional/RegisterBankTable.hpp"
#include "sparta/serialization/checkpoint/FastCheckpointer.hpp"
#include "sparta/serialization/checkpoint/PersistentFastCheckpointer.hpp"
using namespace sparta;
using namespace sparta::serialization::checkpoint;
template class sparta::serialization::checkpoint::DeltaCheckpoint<storage::VectorStorage>;
template class sparta::serialization::checkpoint::DeltaCheckpoint<storage::StringStreamStorage>;
void vp_use(DataView& dv, Register& r, RegisterBase& rb, ArchDataSegment& seg, RegisterProxy& px)
{
    (void)seg;
    dv.read<uint8_t>(0); dv.read<uint16_t>(0); dv.read<uint32_t>(0); dv.read<uint64_t>(0);
    dv.write<uint8_t>(0); dv.write<uint16_t>(0); dv.write<uint32_t>(0); dv.write<uint64_t>(0);
    dv.readPadded<uint64_t>(0); dv.writeTruncated<uint64_t>(0);
    dv.readUnsafe<uint64_t>(0); dv.writeUnsafe<uint64_t>(0);
    r.read<uint8_t>(0); r.read<uint16_t>(0); r.read<uint32_t>(0); r.read<uint64_t>(0);
    r.write<uint8_t>(0,0); r.write<uint16_t>(0,0); r.write<uint32_t>(0,0); r.write<uint64_t>(0,0);
    r.writeUnmasked<uint32_t>(0,0); r.poke<uint32_t>(0,0); r.pokeUnmasked<uint32_t>(0,0); r.peek<uint32_t>(0); r.dmiRead<uint32_t>(0); r.dmiWrite<uint32_t>(0,0);
    rb.read<uint64_t>(0); rb.write<uint64_t>(0,0); (void)px;
    rb.poke<uint32_t>(0,0); rb.readWithCheck(); rb.writeWithCheck<uint32_t>(0); rb.writeWithCheck<uint64_t>(0);
}
template class sparta::memory::CachedMemory<sparta::memory::StoreData>;
