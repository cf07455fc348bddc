"""Source of properties.jsonl and MANIFEST.json."""
TECH = {
    'path': 'path-sensitive abstract interpretation of the type-checked AST (relational domain, summarised loops) against API contracts',
    'mix': 'path-sensitive abstract interpretation plus whole-program effect / call-site rules over the type-checked AST',
    'type': 'type-flow rule over the casts of the type-checked AST',
    'comp': 'compile-fail witnesses: static assertions and negative compilation against the current headers',
}
NOTE = ('Every path of the anchored functions, as instantiated for a probe element type, is decided for all entry states; loops are summarised. '
        'Instances the abstraction cannot decide are listed as undecided in the evidence and are not claimed. '
        'Trusted: clang front end, the model of the standard library in engine/interp.py, ')
PROPS = []
NA = []


def na(id, title, statement, over, q, why, files, mech, reason):
    NA.append(dict(id=id, title=title, statement=statement, over=over, q=q, why=why, files=files, mech=mech, reason=reason))


def P(id, title, statement, over, q, why, files, mech, note='class invariants stated in DESIGN.md.', **kw):
    d = dict(id=id, title=title, statement=statement, over=over, q=q, why=why, files=files, mech=mech, note=NOTE + note)
    d.update(kw)
    PROPS.append(d)


P('R01', 'Bounded containers never exceed their capacity',
  'For every Queue, bounded Buffer, CircularBuffer and Array, an insertion into a full container (or a write at an index not below the capacity) is refused, '
  'and otherwise size() stays at or below capacity(). A CircularBuffer push into a full buffer replaces the oldest entry instead and keeps its size. '
  'A refused insertion or write leaves the container as it was.',
  ['inputs', 'histories'], 'every sequence of operations, every element type and capacity',
  'The unit tests fill a few small containers; they never reach every insertion overload on a full container (CircularBuffer::insert on a full buffer was never tried).',
  ['resources/Queue.hpp', 'resources/Buffer.hpp', 'resources/CircularBuffer.hpp', 'resources/Array.hpp'],
  [('Queue::pushImpl_ assertion', 'resources/Queue.hpp'), ('Buffer::push_backImpl_/insertImpl_ assertions', 'resources/Buffer.hpp'),
   ('CircularBuffer::push_backImpl_/insertEntry_', 'resources/CircularBuffer.hpp'), ('Array::writeImpl_ assertion', 'resources/Array.hpp')])

P('R02', 'Invalid accesses to containers are refused and change nothing',
  'Reading, accessing, erasing or invalidating an entry by index in a Queue, Buffer, Array or Pipe succeeds only for an index the container reports valid; '
  'front, back, top and pop succeed only on a non-empty container. Dereferencing an iterator succeeds only while the iterator reports itself valid. '
  'A refused access or removal changes nothing.',
  ['inputs', 'histories'], 'every index, every iterator and every sequence of operations',
  'Tests try a handful of bad indexes on a few methods; the guarantee is for every accessor overload in every state.',
  ['resources/Queue.hpp', 'resources/Buffer.hpp', 'resources/CircularBuffer.hpp', 'resources/Array.hpp', 'resources/Pipe.hpp', 'resources/PriorityQueue.hpp'],
  [('isValid assertions in the accessors', 'resources/Buffer.hpp'), ('iterator isValid assertions', 'resources/Queue.hpp')])

P('R03', 'A container\'s size, free space and occupancy statistic stay in step',
  'push, push_back, insert, write (of an invalid index) and append raise size() by exactly one when they succeed, pop, erase and invalidate lower it by exactly one, clear and flushAll '
  'make it zero; a refused call leaves it unchanged. numFree() is always capacity() - size() and empty() is size() == 0. '
  'Whenever the size of a Queue, Buffer, CircularBuffer or Array with statistics enabled changes, its utilization statistic is told the new size.',
  ['inputs', 'histories'], 'every container, operation overload and state',
  'Tests compare sizes after short scripted sequences; the statistics counters are not compared with the size at all.',
  ['resources/Queue.hpp', 'resources/Buffer.hpp', 'resources/CircularBuffer.hpp', 'resources/Array.hpp', 'resources/Pipe.hpp', 'resources/PriorityQueue.hpp'],
  [('updateUtilizationCounters_', 'resources/Buffer.hpp'), ('processUtil_/updateUtilizationCounters_', 'resources/Queue.hpp'), ('num_valid_ bookkeeping', 'resources/Pipe.hpp')])

P('R04', 'Queues and buffers keep their elements in order',
  'A Queue is first-in first-out: push makes the element the last one and moves no other, pop removes the first and pop_back the last, the remaining ones keep their relative order, '
  'and front()/back() designate the first and last element. Buffer::push_back makes the element the last one; Buffer::insert and erase at an index shift exactly the elements behind it by one position. '
  'CircularBuffer::push_back appends, and when full drops the oldest element only.',
  ['inputs', 'histories'], 'every sequence of operations, including every wrap-around of the internal storage',
  'Tests wrap a few small queues; the order must survive every head/tail position.',
  ['resources/Queue.hpp', 'resources/Buffer.hpp', 'resources/CircularBuffer.hpp'],
  [('Queue::incrementIndexValue_/rollOver_', 'resources/Queue.hpp'), ('Buffer::insertImpl_/erase', 'resources/Buffer.hpp'), ('CircularBuffer::push_backImpl_', 'resources/CircularBuffer.hpp')])

P('R06', 'The stages of a Pipe move together, and FrontArray picks the first free entry',
  'Every operation on a stage of a Pipe reads or changes exactly the entry isValid of that stage looks at, and numValid follows what it made valid or invalid (appended data are counted when they enter stage 0). '
  'An update drops the last stage and moves every other stage, and the appended data, one stage on. A second append before the update is refused. flushAll clears every stage and the appended data, '
  'flushIf exactly the matching ones; clear and resize leave nothing valid. A pipe that performs its own updates has an update scheduled whenever it holds anything. shiftAppend moves the appended data into stage 0 exactly when that is free. '
  'FrontArray::writeFront and writeBack write, and return, the first free entry from that end and refuse a full array; readValid(n) reads the n-th valid entry.',
  ['inputs', 'histories'], 'every stage, capacity, rotation of the internal storage and mode of updating',
  'Tests run a few small pipes for a few cycles; the rotation of the storage, the appended slot and self-updates interact for every capacity.',
  ['resources/Pipe.hpp', 'resources/FrontArray.hpp'],
  [('Pipe::getPhysicalStage_/internalUpdate_', 'resources/Pipe.hpp'), ('Pipe::writePSImpl_/appendImpl_', 'resources/Pipe.hpp'), ('Pipe::flushAll/flushIf/shiftAppend', 'resources/Pipe.hpp'), ('FrontArray::writeFrontImpl_/writeBackImpl_/readValid', 'resources/FrontArray.hpp')])

P('R07', 'Array and Buffer destroy each element exactly once and keep their age order',
  'An element written to an Array or inserted into a Buffer is constructed once and destroyed exactly once: when it is replaced, erased, cleared or when the container is destroyed (an Array destroys every valid element, a Buffer every element it maps). '
  'A Buffer that grows move-constructs its elements in the new memory and destroys the originals; the place of an erased element becomes the head of the free list and an insertion takes it off again. '
  'An aged Array keeps each valid entry exactly once in its age list, the most recently written first.',
  ['inputs', 'histories'], 'every element type, mode and sequence of operations',
  'The element types of the tests are mostly trivial, so a leaked or doubly destroyed element goes unnoticed.',
  ['resources/Array.hpp', 'resources/Buffer.hpp'],
  [('Array::writeImpl_/erase/clear', 'resources/Array.hpp'), ('Buffer::DataPointer', 'resources/Buffer.hpp'), ('Buffer::erase/clear/push_backImpl_', 'resources/Buffer.hpp')])

P('K01', 'Scheduling puts an event at the right tick and in the right group',
  'Scheduler::scheduleEvent puts the event exactly once at the tick current + relative time, behind the events already scheduled in the firing group its precedence group maps to '
  '(add-if-not-scheduled: not at all if it is there already). The list of ticks stays in ascending order and no scheduled tick is lost; no event is placed before the first group the tick will fire. '
  'Scheduling before finalization, or into a group of the current tick that has already been passed, is refused with no effect. '
  'Continuing events (and only they) extend the time the scheduler keeps running.',
  ['inputs', 'histories'], 'every event, delay, group and state of the schedule',
  'The tests schedule a few dozen events; the tick list has insertion cases (before the first, between two, behind the last, existing tick) times groups times continuing/non-continuing that no script covers.',
  ['src/Scheduler.cpp', 'kernel/Scheduler.hpp'],
  [('Scheduler::scheduleEvent', 'sparta/src/Scheduler.cpp'), ('Scheduler::determineTickQuantum_', 'sparta/src/Scheduler.cpp'), ('Scheduler::TickQuantum::addEvent', 'kernel/Scheduler.hpp')],
  note='the schedule list invariant (ticks ascending, group zero is the last existing group) stated in DESIGN.md.')

P('K02', 'Running fires each scheduled event once, in tick and group order',
  'Scheduler::run fires the events of the earliest tick, group by group in ascending order starting with the first group in use, each event of a group exactly once in the order it was scheduled, '
  'including those added while the group is firing, and goes to the next tick only after all groups were visited. While an event fires, the current tick is that event\'s tick, '
  'and getCurrentFiringEvent/getCurrentSchedulingPhase describe it; clocks have been told the elapsed time before. A run of n ticks fires nothing later than n ticks and, if exact, ends at exactly current + n. '
  'Running before finalization or while running is refused. Asynchronously scheduled events are taken over once, with their own delay and group.',
  ['inputs', 'histories', 'schedules'], 'every schedule content, every run length, every event handler that schedules more',
  'Firing order must hold for every schedule and for handlers that add events to the group being fired; tests observe a few scripted runs.',
  ['src/Scheduler.cpp', 'kernel/Scheduler.hpp'],
  [('Scheduler::run', 'sparta/src/Scheduler.cpp')],
  note='the schedule list invariant stated in DESIGN.md.')

P('K03', 'Cancelling removes exactly the named occurrences of an event',
  'Scheduler::cancelEvent removes every scheduled occurrence of the event, cancelEvent with a relative time only those at that tick, and cancelAsyncEvent only the asynchronous requests for that event; '
  'other events stay where they are. A cancelled occurrence does not fire, a later schedule of the same event still does. isScheduled reports whether an occurrence that is not cancelled is pending '
  '(at the given relative time, or at any). clearEvents forgets every scheduled event.',
  ['inputs', 'histories', 'schedules'], 'every schedule content, event and tick',
  'Tests cancel single events in short scripts; which occurrences survive depends on every position in every tick and group.',
  ['src/Scheduler.cpp', 'kernel/Scheduler.hpp'],
  [('Scheduler::cancelEvent', 'sparta/src/Scheduler.cpp'), ('Scheduler::cancelAsyncEvent', 'sparta/src/Scheduler.cpp'), ('Scheduler::isScheduled', 'sparta/src/Scheduler.cpp')],
  note='the schedule list invariant stated in DESIGN.md.')

P('K04', 'Precedence decides the firing order within a tick',
  'producer >> consumer (and precedes) makes the producer fire before the consumer in every tick in which both are scheduled: after finalization the group of a consumer is greater than the group of each of its producers, '
  'transitively, and every event fires in its scheduling phase, the phases being ordered Trigger, Update, PortUpdate, Flush, Collection, Tick, PostTick. '
  'For event groups every member of the first precedes every member of the second. A cycle is reported at finalization, stating a precedence after finalization is refused, '
  'and a precedence between event types of two different phases does not compile.',
  ['inputs', 'programs'], 'every graph of precedences, every pair of event types',
  'Tests order a handful of events; the ordering must hold for every graph, every overload of the operator and every phase, and wrong phases must fail to build.',
  ['src/DAG.cpp', 'src/Vertex.cpp', 'kernel/Vertex.hpp', 'kernel/DAG.hpp', 'src/Scheduleable.cpp', 'events/Precedence.hpp', 'ports/Bus.hpp'],
  [('DAG::sort', 'sparta/src/DAG.cpp'), ('Vertex::link', 'sparta/src/Vertex.cpp'), ('operator>> overloads', 'events/Precedence.hpp'), ('setupDummyPrecedence', 'sparta/src/Scheduleable.cpp')],
  tech='comp')

P('K05', 'Clocks convert between cycles and ticks without losing or shifting time',
  'For every clock of a finalized tree: getTick(c) is c periods, getCycle(t) is t divided by the period rounded down, getAbsoluteTick(c) is c - 1 periods, isPosedge says whether the current tick is a multiple of the period, '
  'all computed in 64 bits. The periods of all clocks of a tree are multiples of one common tick that keeps every frequency ratio exact: each clock has its own ratio times its parent\'s, and no clock gets a truncated or zero period. '
  'A second root clock and a second parent are refused; a clock registers with its scheduler and leaves it when destroyed. '
  'calculateClockCrossingDelay takes at least both delays, arrives on a rising edge of the destination clock, adds less than one destination period, and is refused without clocks or across schedulers.',
  ['inputs', 'histories'], 'every clock tree, ratio, cycle count and tick',
  'Conversions must hold for every 64-bit cycle count and every ratio; the tests use small counts and a few ratios.',
  ['simulation/Clock.hpp', 'src/Clock.cpp', 'simulation/ClockManager.hpp', 'src/ClockManager.cpp'],
  [('Clock::getTick / getCycle / getAbsoluteTick', 'simulation/Clock.hpp'), ('ClockManager::normalize', 'sparta/src/ClockManager.cpp'), ('calculateClockCrossingDelay', 'simulation/Clock.hpp')])


P('K06', 'Events schedule, fire and cancel exactly what the user asked for',
  'Every schedule call of an event schedules that event once, at the tick its clock gives for the delay (plus the event\'s own delay when none is given), on its scheduler, with its own group and continuing flag; '
  'an event without a clock or scheduler refuses. An event keeps the handler, delay and phase it was constructed with. A unique event runs its handler once and is not scheduled for the same tick twice. '
  'A single-cycle unique event takes delays 0 and 1 only, schedules at most once per call, drops only a request for a tick it is already scheduled for, and can be scheduled again after cancel. '
  'cancel and isScheduled act on this event and the tick of the given cycle. An asynchronous event goes through the scheduler\'s asynchronous queue. '
  'A global event runs its handler with the given delay and clock, never after its source is gone. A startup event is registered once, and refused after finalization.',
  ['inputs', 'histories'], 'every event, delay, history of schedule, cancel and fire',
  'Losing or doubling an event depends on the history of schedules and cancels in one tick; tests follow single scripted histories.',
  ['events/Scheduleable.hpp', 'src/Scheduleable.cpp', 'events/Event.hpp', 'events/UniqueEvent.hpp', 'events/SingleCycleUniqueEvent.hpp', 'events/PhasedUniqueEvent.hpp', 'events/PhasedSingleCycleUniqueEvent.hpp', 'events/AsyncEvent.hpp', 'events/GlobalEvent.hpp', 'events/StartupEvent.hpp'],
  [('Scheduleable::schedule*', 'events/Scheduleable.hpp'), ('UniqueEvent', 'events/UniqueEvent.hpp'), ('SingleCycleUniqueEvent::schedule', 'events/SingleCycleUniqueEvent.hpp'), ('GlobalEvent', 'events/GlobalEvent.hpp')])

P('K07', 'Payload events deliver each payload once and keep it alive until then',
  'preparePayload stores the payload in a free proxy, records it in flight once, gives it the event\'s continuing flag and precedence group and hands out a handle. A scheduled or cancelled payload is not scheduled again. '
  'Delivery runs the handler once with that payload, which is alive throughout; afterwards its handles can schedule it again. '
  'A payload is destroyed exactly once, when it is neither scheduled, nor held by a handle, nor being delivered; its proxy then becomes free once and is no longer in flight. What is still in flight is destroyed with the event. '
  'cancel, cancelIf, getHandleIf, confirmIf and isScheduled look at every payload in flight, act on exactly those asked for, and count them. '
  'The handle count of a payload is the number of handles to it under every copy, move and assignment, self-assignment included.',
  ['inputs', 'histories'], 'every history of prepare, schedule, copy, cancel, deliver and destroy',
  'A payload destroyed early, late or twice shows only for particular interleavings of handles, cancels and deliveries.',
  ['events/PhasedPayloadEvent.hpp', 'events/PayloadEvent.hpp', 'events/Scheduleable.hpp'],
  [('PhasedPayloadEvent::preparePayload', 'events/PhasedPayloadEvent.hpp'), ('PayloadDeliveringProxy::reclaim_', 'events/PhasedPayloadEvent.hpp'), ('ScheduleableHandle', 'events/Scheduleable.hpp')])


P('P01', 'What is sent on a data or signal port arrives once, when it was due',
  'A send on a data or signal out port reaches every bound in port once, with that data; sending unbound is refused. It is delivered at the send delay plus the port delay, in full 64-bit cycles of the receiver\'s clock, '
  'or at once when that sum is zero and the receiver\'s phase is the current one; a zero delay into a phase already past is refused. '
  'On arrival the data is stored with the tick of arrival before the registered handler is called, once, with that data. Received data stays readable until pulled or cleared, and reading without data is refused. '
  'cancel, cancelIf and isDriven act on the pending deliveries of every bound port; cancel counts what it cancelled.',
  ['inputs', 'histories'], 'every data, delay, set of bound ports and history of sends, cancels and reads',
  'Tests send small delays over a few fixed port pairs.',
  ['ports/DataPort.hpp', 'ports/SignalPort.hpp', 'ports/Port.hpp', 'utils/DataContainer.hpp'],
  [('DataOutPort::send', 'ports/DataPort.hpp'), ('SignalOutPort::send', 'ports/SignalPort.hpp'), ('DataContainer', 'utils/DataContainer.hpp')])

P('P02', 'Ports bind only what fits, and order producers, delivery and consumers',
  'An out port takes only an in port it is not bound to yet, of its own data type and clock frequency (sync ports excepted); a sync out port takes one. Both sides record the other once, the in port gets the continuing setting, '
  'and a refused bind connects nothing. Binding from the in port\'s side, through sparta::bind or through an exported port binds the same two ports. '
  'Consumer and producer registration is refused on a bound port; a second handler, or one with the wrong number of arguments, is refused. '
  'On a zero-delay bind each producer is ordered before each consumer of its phase and before a delivery of its phase; a delivery is ordered before each consumer of its phase. '
  'A port set takes ports only, each name once per direction, none once finalized, and finds exactly those.',
  ['inputs', 'histories'], 'every pair of ports, order of registration and binding',
  'Which refusals and orderings apply depends on type, clock, delay, phase and earlier binds; tests connect well-formed pairs.',
  ['ports/Port.hpp', 'ports/DataPort.hpp', 'ports/SignalPort.hpp', 'ports/SyncPort.hpp', 'ports/PortSet.hpp', 'ports/ExportedPort.hpp', 'src/ExportedPort.cpp'],
  [('OutPort::bind', 'ports/Port.hpp'), ('InPort::registerConsumerHandler', 'ports/Port.hpp'), ('ExportedPort::bind', 'sparta/src/ExportedPort.cpp'), ('PortSet', 'ports/PortSet.hpp')])

P('P03', 'Sync ports deliver each datum once, one per receiver cycle, and honour ready',
  'A send on a sync port schedules the data once, after the clock crossing delay for the send delay and port delay, or, when it may slide and that tick has its data, one receiver cycle after the data before it. '
  'It is refused when unbound, off the sender\'s rising edge, or when it may not slide and an earlier datum arrives no sooner. The returned delay is that of the delivery. '
  'isDriven and isReady answer accordingly: an out port is ready exactly when data sent now would arrive after all data before it and the receiver\'s latched ready is set, or the receiver is one cycle away with nothing in flight. '
  'A setReady takes effect for deliveries from the next tick; two different values in one tick are refused. '
  'Data arriving at a ready receiver is stored and handed to the handler once; otherwise it is sent again once, one cycle later, and stays in flight. A port delay is refused once bound or already set.',
  ['inputs', 'histories', 'schedules'], 'every pair of clocks, delays, and history of sends and ready changes',
  'Losing, doubling or reordering a datum takes particular clock ratios, slides and ready changes.',
  ['ports/SyncPort.hpp', 'simulation/Clock.hpp'],
  [('SyncOutPort::send', 'ports/SyncPort.hpp'), ('SyncOutPort::isReady', 'ports/SyncPort.hpp'), ('SyncInPort::setReady', 'ports/SyncPort.hpp')])

P('M01', 'Every memory access stays in its window and blocks, and says whether it happened',
  'Through a memory interface, the memory behind is read or written only by an access whose first byte is at or after the start of the window and whose last is before its end, whatever its size, '
  'and that does not span blocks; address, size and buffer reach that memory as given and the answer is its answer. read, write, peek and poke return exactly when the access was done and throw otherwise. '
  'Untimed peeks and pokes are cut into pieces that cover the range exactly and stop at a refusal. Every read or write attempt is counted once; '
  'observers hear of a successful access only, once, after it, with what was accessed and, for a write, the bytes before it.',
  ['inputs', 'faults'], 'every address, size and buffer, and every answer of the memory behind',
  'Sums of address and size may wrap, and every refusal must leave nothing done; tests use a few in-range accesses.',
  ['memory/DebugMemoryIF.hpp', 'memory/BlockingMemoryIF.hpp', 'memory/BlockingMemoryIFNode.hpp', 'memory/MemoryExceptions.hpp'],
  [('DebugMemoryIF::isAddressInWindows', 'memory/DebugMemoryIF.hpp'), ('BlockingMemoryIF::tryRead', 'memory/BlockingMemoryIF.hpp'), ('BlockingMemoryIFNode::tryWrite', 'memory/BlockingMemoryIFNode.hpp')],
  note='With one access window and consistent block mask, as every constructor makes them.')

P('M02', 'Memory reads back the bytes last written, at their place',
  'A line of architectural data moves exactly the requested bytes at the requested place, only when all lie inside the line, and every way of changing its bytes flags it as changed. '
  'An offset is served by one line, found and created at the offset divided by the line size. A memory object moves bytes between that line and the buffer, and reads its fill pattern where nothing was written; '
  'it accepts an access exactly when it lies inside one line and inside its size. Its tree interface passes accesses on unchanged. '
  'A direct (DMI) pointer addresses the block holding the address, is refused across blocks, flags the line as always changed, and is unusable once invalidated.',
  ['inputs', 'histories'], 'every offset, size, line size and history of accesses and invalidations',
  'A wrong place, bound or missing flag shows only for particular offsets and sizes, or at a later checkpoint.',
  ['functional/ArchData.hpp', 'memory/MemoryObject.hpp', 'memory/DMIBlockingMemoryIF.hpp'],
  [('ArchData::Line', 'functional/ArchData.hpp'), ('MemoryObject::tryRead', 'memory/MemoryObject.hpp'), ('DMIBlockingMemoryIF', 'memory/DMIBlockingMemoryIF.hpp')])

P('M03', 'A memory map sends each access to its one mapping, at the mapped address',
  'A mapping is added only when it is not empty, its ends and destination start are aligned to blocks, its destination has the same block size and holds all of it (no sum wrapping), and it is apart from every other mapping; '
  'it is kept with the range and destination given. A mapping found for an address contains that address, and the search turns down or up only when the address is below, or not below, what it passes. '
  'An address maps to its distance from the start of its mapping, counted from the destination start. An access is said to have a mapping only if one mapping contains all of it. '
  'An access through a map node reaches the destination of its address at the mapped address with the same size, buffer and supplements, and gives its answer; without a mapping it is refused.',
  ['inputs', 'histories'], 'every set of mappings, address and size',
  'Wrap-around and off-by-one errors at mapping edges need particular addresses; tests map a few small ranges.',
  ['memory/SimpleMemoryMap.hpp', 'memory/SimpleMemoryMapNode.hpp'],
  [('SimpleMemoryMap::addMapping', 'memory/SimpleMemoryMap.hpp'), ('SimpleMemoryMap::findMapping', 'memory/SimpleMemoryMap.hpp'), ('SimpleMemoryMapNode::tryRead_', 'memory/SimpleMemoryMapNode.hpp')],
  note='That the search tree keeps every mapping reachable after rebalancing is not decided.')

P('M04', 'A cached memory gives back its own writes until committed or dropped',
  'A read or peek of a CachedMemory takes its bytes from the cache when it holds the line and otherwise peeks downstream. A write loads a line the cache lacks, keeps the bytes it replaces, changes the cache only, '
  'and is recorded once with what was written under an identifier greater than all before, never above the watermark. A poke reaches the cache and downstream. '
  'Only the oldest write is committed: its stored bytes are written downstream and it is removed; any other is refused without effect. '
  'Dropping removes writes from the newest down to the one dropped, putting back the bytes each replaced; an unknown write is refused without effect. '
  'Each merged byte goes to the bytes kept by the oldest write covering it, else to the cache. The outstanding writes found for an address are those covering it, oldest first.',
  ['inputs', 'histories'], 'every history of reads, writes, commits, drops, merges and pokes, of every address and size',
  'What a drop restores or a merge reaches depends on which writes overlap and in which order they are dropped or committed.',
  ['memory/CachedMemory.hpp'],
  [('CachedMemory::tryWrite_', 'memory/CachedMemory.hpp'), ('CachedMemory::dropWrite', 'memory/CachedMemory.hpp'), ('CachedMemory::mergeWrite', 'memory/CachedMemory.hpp')])

# ------------------------------------------------------------------ architectural data

P('A01', 'Laid out segments lie inside one line and overlap only where declared',
  'Laying out an ArchData places every registered segment exactly once. A segment that is no subset of another lies at or above the end of everything placed before and within one line, and the end of what is placed moves to its end. '
  'A subset lies at its subset offset within the segment it names, which is placed before it and contains it completely, whatever the sizes and offsets. A segment is accepted exactly when nothing is laid out yet, its size is not 0 and fits a line, '
  'and neither it nor another with its identifier was accepted before. A second layout, or laying out a range when segments are registered, is refused without effect. '
  'After the layout and after every reset, which first cleans all data, every segment writes its initial value, and none before all are placed. ',
  ['inputs', 'histories'], 'every set of segments, sizes, subset relations and offsets, in every order',
  'Where a segment lands depends on all the segments placed before it and on how they fill their lines.',
  ['functional/ArchData.hpp', 'functional/ArchDataSegment.hpp'],
  [('ArchData::layout', 'functional/ArchData.hpp'), ('ArchData::registerSegment', 'functional/ArchData.hpp'), ('ArchData::reset', 'functional/ArchData.hpp')],
  note='Layouts of less than 2^64 bytes in all; cyclic subset declarations are not considered.')

P('A02', 'Register, field and view accesses touch exactly the bytes and bits they name',
  'A register access (read, write, poke, with or without mask) happens exactly when it lies inside the register, for every offset and size, and touches exactly the bytes at its offset in the register\'s place in its line. '
  'A masked write or poke stores the given bits where the write mask allows and keeps the present ones elsewhere; the mask lacks exactly the bits of the read-only fields. A typed access is of the size of its type at the index times that size. '
  'Each read or write of a register tells its observers once, a write with the value before it; peeks, pokes and unobserved accesses tell nobody. A field reads exactly its own bits, writing it keeps all others, and a value too large for it is refused. '
  'A DataView reads or writes inside itself only, at its place, and writes its initial value there byte for byte. A register with a read or write callback calls it in place of the access.',
  ['inputs'], 'every register size, offset, access size, field position, mask and value',
  'A test samples a few widths, offsets and values; an access that is off by some bits or bytes at a boundary of a word, field or register goes unnoticed.',
  ['functional/Register.hpp', 'functional/DataView.hpp', 'functional/ArchDataSegment.hpp', 'functional/RegisterBits.hpp'],
  [('Register::write', 'functional/Register.hpp'), ('RegisterBase::Field::write', 'functional/Register.hpp'), ('DataView::read', 'functional/DataView.hpp')],
  note='The bit arithmetic inside RegisterBits (its shifts and logical operators) is taken to be right: values are followed as expressions over these operators.')

P('A03', 'Saving and restoring architectural data loses no changed line and no byte',
  'Saving an ArchData writes, for every line changed since the last save or restore, its index and then all its bytes, and for every line freed since then its initial value; saving all writes every line. Each ends with one end mark and flags the saved lines as unchanged. '
  'Every way of changing a line in bulk (allocation, refilling, updating from another ArchData) flags it as changed. Restoring takes lines up to the end mark, each into the line of the index stored, in full, and flags it unchanged; restoring all cleans everything first. '
  'Cleaning frees and notes, or refills, every line, and never frees a line someone holds a raw pointer to. Updating from another copies every line the other has. A VectorStorage gives back the lines with indices and bytes in the order stored.',
  ['histories'], 'every history of writes, cleans, resets, saves and restores',
  'A line that a save leaves out shows only when a checkpoint is restored after the right sequence of changes.',
  ['functional/ArchData.hpp', 'serialization/checkpoint/VectorStorage.hpp'],
  [('ArchData::save', 'functional/ArchData.hpp'), ('ArchData::restore', 'functional/ArchData.hpp'), ('ArchData::clean', 'functional/ArchData.hpp')],
  note='The map from index to line (TieredMap) and the byte stream of StringStreamStorage are taken to be right. State kept outside ArchData by Checkpointable objects is not covered.')

P('C01', 'Loading a checkpoint restores the architectural state it captured',
  'A checkpoint stores every ArchData, in order: everything for a snapshot, otherwise what changed since the checkpoint it follows. The first one, and every one taken when forced or when the snapshot threshold is reached, is a snapshot. '
  'A new checkpoint follows the current one, has an id never used before and the current tick, and becomes the current one. Loading a checkpoint restores the nearest snapshot at or before it and then each checkpoint from there to it, oldest first, each ArchData in the order and way it was stored; '
  'the checkpoint becomes the current one and the scheduler restarts at its tick. Loading an unknown id is refused without effect.',
  ['histories'], 'every history of creating, loading and deleting checkpoints, every snapshot threshold',
  'A wrong link in the chain of deltas shows only for some histories of loads and branches.',
  ['serialization/checkpoint/FastCheckpointer.hpp', 'serialization/checkpoint/DeltaCheckpoint.hpp', 'serialization/checkpoint/Checkpointer.hpp'],
  [('FastCheckpointer::loadCheckpoint', 'serialization/checkpoint/FastCheckpointer.hpp'), ('DeltaCheckpoint::load', 'serialization/checkpoint/DeltaCheckpoint.hpp'), ('FastCheckpointer::createCheckpoint_', 'serialization/checkpoint/FastCheckpointer.hpp')],
  note='State outside ArchData (Checkpointable objects) and squashing are not covered; what saving and restoring one ArchData does is A03.')

P('C02', 'A checkpoint still needed is never erased, and the counts stay right',
  'A deleted checkpoint is erased only when it is neither the head nor the current checkpoint and no live checkpoint, nor the current one, restores through it. '
  'Erasing takes it out of the chain: its predecessor no longer lists it, its successors follow its predecessor. Deleting an unknown id is refused without effect; deleting a live one moves it from the live to the dead count once, deleting it again changes no count. '
  'Listings never show a deleted checkpoint and show every live one that fits.',
  ['histories'], 'every history of creating, loading and deleting checkpoints',
  'A checkpoint erased too early shows only when a branch that needs it is loaded later.',
  ['serialization/checkpoint/FastCheckpointer.hpp', 'serialization/checkpoint/DeltaCheckpoint.hpp', 'serialization/checkpoint/Checkpoint.hpp'],
  [('FastCheckpointer::deleteCheckpoint', 'serialization/checkpoint/FastCheckpointer.hpp'), ('DeltaCheckpoint::canDelete', 'serialization/checkpoint/DeltaCheckpoint.hpp'), ('Checkpoint::~Checkpoint', 'serialization/checkpoint/Checkpoint.hpp')],
  note='Squashing the current branch is not covered.')


na('N01', 'Reports show the numbers the statistics hold',
   'Every report format prints, for each statistic, the value it had when the report was written, under its own name.',
   ['inputs', 'histories'], 'every report definition, format and moment', 'Tests compare a few reports with stored files.',
   ['src/Report.cpp', 'report/format/CSV.hpp'], [('Report formatters', 'src/Report.cpp')],
   'What a formatter must print is text assembled at run time from names, formats and floating-point values; there is no statement about it in the source to hold the text against, short of re-implementing the formatter.')
na('N02', 'Statistic expressions evaluate to their arithmetic value',
   'A StatisticDef expression evaluates to the value of its formula over the counters it names.',
   ['inputs'], 'every expression and every value of the counters', 'Tests evaluate a handful of expressions.',
   ['src/StatisticDef.cpp', 'statistics/ExpressionGrammar.hpp'], [('Expression grammar', 'statistics/ExpressionGrammar.hpp')],
   'The grammar is a Boost.Spirit template whose semantic actions build std::function trees at run time; precedence, and the floating-point result, are not visible as paths of the source.')
na('N03', 'Configuration files set exactly the parameters they name',
   'Applying a YAML file or command line sets each parameter whose path matches a pattern to the given value, and reports what matches nothing.',
   ['inputs'], 'every file, pattern and tree', 'Tests apply a few small files.',
   ['src/ConfigParserYAML.cpp', 'app/CommandLineSimulator.hpp'], [('ConfigParser::YAML', 'src/ConfigParserYAML.cpp')],
   'The behaviour is defined by regular expressions and by the events of the external YAML parser over run-time text; no sound static argument in reach bounds either.')
na('N04', 'A simulation is reproducible from run to run',
   'Two runs of the same simulator with the same configuration execute the same events in the same order and print the same output.',
   ['histories', 'schedules'], 'every simulator and every address-space layout', 'Tests run once.',
   ['src/Scheduler.cpp', 'src/DAG.cpp'], [('DAG::sort', 'src/DAG.cpp')],
   'Order that follows pointer values enters through user models and standard containers of pointers (sets and maps keyed by address) across the whole code base; separating the iterations that can reach an observable order from those that cannot needs whole-program knowledge of the model.')
