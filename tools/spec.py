#!/usr/bin/env python3
"""Single source of the property list.  `python3 tools/spec.py` writes
properties.jsonl and MANIFEST.json (only properties registered in props.py are
claimed; the others must carry a not_applicable reason here)."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), na=None, note=None):
    P.append(dict(
        rec=dict(id=id, title=title, statement=statement,
                 quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                 anchors=dict(files=files,
                              state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                              mechanism=[dict(name=a, where=b) for a, b in mech],
                              observe_at=list(observe), hook_needed=None)),
        na=na, note=note))


V = "src/vt/"
prop("C01", "An epoch is never declared terminated while work under it is outstanding",
     "When an epoch is reported terminated (a termination action runs, a scheduling call scoped to the epoch returns, or a "
     "termination query answers true), every message, broadcast, dependency or explicitly produced unit of work created under "
     "that epoch, on any node and however deeply nested through handlers and child epochs, has already been processed. "
     "This holds for collective epochs and for rooted epochs under both detectors, and a terminated epoch never becomes unterminated.",
     ["schedules", "programs", "configurations"],
     "All programs that create work under epochs, all message delays and reorderings between pairs of nodes, all node speeds, both detector choices.",
     "A premature declaration needs a detector wave to overtake a slow message; tests run one schedule on an idle machine with two nodes and no delays (and the MPI tests do not build here).",
     [V + "termination/termination.cc", V + "termination/term_state.cc", V + "termination/dijkstra-scholten/ds.cc", V + "termination/dijkstra-scholten/comm.cc", V + "termination/term_action.cc"],
     [("four-counter wave over a spanning tree", V + "termination/termination.cc: propagateEpoch"), ("Dijkstra-Scholten engagement tree with acks", V + "termination/dijkstra-scholten/ds.cc")],
     [("l_prod/l_cons", "units produced and consumed locally per epoch", V + "termination/term_state.h")],
     ["theTerm()->addAction", "vt::runInEpochCollective / runInEpochRooted", "theTerm()->isEpochTerminated"])
prop("C02", "Every finished epoch terminates and each termination action runs exactly once",
     "Once every participant has finished an epoch and all work under it is processed, termination is declared within bounded further "
     "progress on every node that takes part; each registered termination action runs exactly once, on the node that registered it, also "
     "when it is registered after termination. Scheduling until an epoch's end always returns.",
     ["schedules", "programs", "configurations"],
     "All epoch programs, delays, stalls and detector configurations, with faults that eventually stop.",
     "Hangs and double-fired actions depend on the order in which waves, acknowledgements and finish notices meet; tests see one order.",
     [V + "termination/termination.cc", V + "termination/term_action.cc", V + "termination/term_terminated.h", V + "termination/epoch_tags.cc"],
     [("termination actions", V + "termination/term_action.cc"), ("epoch ready/finished notices", V + "termination/termination.cc: epochTerminated, setupNewEpoch")],
     [], ["theTerm()->addAction", "vt::runInEpoch*"])
prop("C03", "Child epochs, epoch dependencies and send chains keep their order",
     "A parent epoch is not reported terminated before any epoch nested under it, including children created remotely, in handlers or captured from the context, "
     "and an epoch with an added dependency is not reported terminated before the epoch it depends on. "
     "The steps of a dependent send chain (also over collection elements, and steps that merge two chains) run in order: a step's messages run only after the whole previous step has terminated, each exactly once.",
     ["schedules", "programs", "configurations"],
     "All epoch graphs (nesting, dependency links and chains), all schedules.",
     "The ordering matters only when a child's or predecessor's work is still in flight when the other side looks finished; tests exercise fixed small graphs.",
     [V + "termination/epoch_dependency.cc", V + "termination/termination.cc", V + "epoch/epoch_window.cc", V + "termination/graph/epoch_graph.cc", V + "messaging/dependent_send_chain.h", V + "messaging/pending_send.cc"],
     [("parent/successor links hold a unit on the parent", V + "termination/epoch_dependency.cc"), ("a chain step is released by an action on the previous epoch", V + "messaging/dependent_send_chain.h")],
     [], ["termination actions, termination queries and handler executions"])
prop("C04", "Each active message is delivered exactly once, intact, to the right handler",
     "Every message sent to a node, whether small, larger than the maximum MPI message, carrying extra payload, or serialized, runs its handler exactly once on the destination "
     "with the sent contents and the true sender; a broadcast runs it exactly once on every node. "
     "No message is lost, duplicated, truncated or delivered with another message's contents, under any interleaving of transfers.",
     ["schedules", "inputs", "configurations"],
     "All sizes around every protocol threshold, all concurrent transfers between all pairs, all completion orders and late reads of send buffers.",
     "Cross-talk and buffer reuse need several multi-part transfers in flight with unlucky completion order; unit tests send a few messages between two ranks.",
     [V + "messaging/active.cc", V + "messaging/active.h", V + "messaging/async_op_mpi.h", V + "messaging/request_holder.h", V + "serialization/messaging/serialized_messenger.impl.h", V + "group/global/group_default.cc", V + "utils/mpi_limits/mpi_max_tag.cc"],
     [("tags per data transfer", V + "messaging/active.cc: sendDataMPI/recvDataMsg"), ("reference counted buffers until the send completes", V + "messaging/active.cc"), ("spanning tree broadcast", V + "group/global/group_default.cc")],
     [], ["user handlers"])
prop("C05", "The scheduler runs every enqueued unit exactly once and honours priorities",
     "Every unit of work given to a node's scheduler runs exactly once, and among units queued at the same moment on a node a unit with a higher priority runs before one with a lower priority (breadth levels refine a priority downwards, with the most urgent value still first). "
     "A call that runs the scheduler while a condition holds or until an epoch ends does not return early and does return once its condition is met.",
     ["schedules", "programs", "configurations"],
     "All mixes of priorities, nested scheduler calls, arrivals from the network during a drain, and progress settings.",
     "Existing tests enqueue a handful of fixed units with no concurrent network arrivals or nested scheduling.",
     [V + "scheduler/scheduler.cc", V + "scheduler/scheduler.impl.h", V + "scheduler/priority_queue.h", V + "scheduler/priority_manip.cc", V + "scheduler/prioritized_work_unit.h"],
     [("priority queue of work units", V + "scheduler/priority_queue.h"), ("priority levels", V + "scheduler/priority_manip.cc")],
     [], ["theSched()->enqueue", "message priorities"])
prop("C06", "Suspended tasks resume exactly once with their own context",
     "A handler that suspends in the middle (waiting on an epoch or a user condition) and is later resumed continues exactly once, at the point where it stopped, with its local variables, current epoch, source node and task context as they were. "
     "Tasks that run in between neither see nor disturb the suspended task's context, and work produced after a resume still counts towards the suspended task's epoch.",
     ["schedules", "programs"],
     "All interleavings of suspensions, resumptions and nested epochs on all nodes, with and without user-level threads.",
     "Whether contexts mix depends on what runs between suspension and resume; tests suspend one task in a fixed order.",
     [V + "scheduler/thread_action.cc", V + "scheduler/thread_manager.cc", V + "scheduler/suspended_units.cc", V + "runnable/runnable.cc", V + "context/runnable_context/set_context.cc", V + "context/runnable_context/td.cc", V + "context/runnable_context/from_node.cc"],
     [("contexts suspended and resumed with a runnable", V + "runnable/runnable.cc"), ("per-task fibers", V + "scheduler/thread_action.cc")],
     [], ["theTerm epoch stack, theContext()->getFromNodeCurrentTask(), handlers"])
prop("C07", "Reductions and barriers combine every contribution exactly once",
     "A reduction combines exactly one contribution of every participant of that reduction instance, never mixing instances, and delivers the combined value to the target exactly once (on all participants for an all-reduce), whatever order contributions arrive in; "
     "a barrier releases no node before every node has entered it.",
     ["schedules", "programs", "configurations"],
     "All overlaps of several outstanding reductions and barriers over nodes, groups, object groups and collections, all arrival orders and tree shapes.",
     "Mixing instances needs later contributions to overtake earlier ones at an interior tree node; tests mostly run one reduction at a time.",
     [V + "collective/reduce/reduce.cc", V + "collective/reduce/reduce.impl.h", V + "collective/reduce/reduce_manager.cc", V + "collective/barrier/barrier.cc", V + "collective/tree/tree.cc", V + "collective/reduce/allreduce"],
     [("reduction state per stamp", V + "collective/reduce/reduce_state_holder.h"), ("barrier phases", V + "collective/barrier/barrier.cc"), ("spanning trees", V + "collective/tree/tree.cc")],
     [], ["theCollective()->reduce / proxy.reduce / proxy.allreduce / barrier"])
prop("C08", "Collective scopes run the same operations in the same order on all nodes",
     "Collective MPI operations posted through scopes run exactly once on each node, in an order that is the same on all nodes for operations of one scope, and no two scopes' operations ever interleave inconsistently between nodes, even when nodes post to several scopes in different relative orders; "
     "waiting for an operation returns only after it completed.",
     ["schedules", "programs"],
     "All relative posting orders of scopes on the nodes, all progress rates.",
     "Deadlock or mismatch needs nodes to post scopes in different orders while consensus messages are delayed.",
     [V + "collective/collective_scope.cc", V + "collective/collective_alg.cc"],
     [("consensus by reduction and broadcast", V + "collective/collective_scope.cc")], [], ["makeCollectiveScope, mpiCollectiveAsync, mpiCollectiveWait"])
prop("C09", "Groups deliver to exactly their members",
     "A message multicast to a rooted or collective group runs exactly once on each member node and on no other, and reductions and queries over the group see exactly the members, for every membership given as a range, a list or a collective yes/no choice and however regions are split for the spanning tree. "
     "Messages sent to a group that is still being set up are delivered once it is ready.",
     ["schedules", "inputs", "programs"],
     "All membership sets, creation patterns (concurrent, nested, remote root) and multicast timings.",
     "Memberships that leave gaps, exclude the root or split unevenly and multicasts racing with set-up are outside the few fixed groups the tests create.",
     [V + "group/group_manager.cc", V + "group/group_info.cc", V + "group/rooted/group_info_rooted.cc", V + "group/collective/group_info_collective.cc", V + "group/region/group_range.cc", V + "group/region/group_list.cc", V + "group/region/group_shallow_list.cc", V + "group/id/group_id.cc"],
     [("region splitting", V + "group/region/group_range.cc: splitN"), ("collective spanning tree of members", V + "group/collective/group_info_collective.cc")],
     [], ["theGroup()->newGroup / newGroupCollective / sendMsg", "envelopeSetGroup broadcasts"])
prop("C10", "Object groups address each node's own instance exactly once",
     "A message or invocation to an object-group proxy element runs exactly once on that node's instance of that group, a broadcast once on every node's instance, also when it arrives before the receiver has constructed its instance; "
     "distinct groups never receive each other's messages, and a destroyed group's instance is released.",
     ["schedules", "programs"],
     "All creation, message and destruction interleavings across nodes.",
     "The message-before-construction race needs one node to run ahead; tests synchronise before using a group.",
     [V + "objgroup/manager.cc", V + "objgroup/manager.impl.h", V + "objgroup/manager.static.h", V + "objgroup/proxy"],
     [("pending messages per proxy", V + "objgroup/manager.cc")], [], ["proxy.send / broadcast / invoke / get"])
prop("C11", "Collection messages reach their element exactly once, even while it migrates",
     "Every message sent to a collection element runs its handler exactly once, on the element, wherever it then lives, with the sent contents; this holds while elements migrate (between points where no message is under way, once), with stale location caches, forwarding, and messages that arrive before the element does. "
     "At any moment an element exists on at most one node and its state moves with it unchanged.",
     ["schedules", "programs", "configurations"],
     "All migration and send interleavings from all nodes, cache states and message kinds (plain, serialized, large).",
     "The races between migration, location updates and forwarding need delays between specific messages; tests quiesce around migrations.",
     [V + "vrt/collection/manager.impl.h", V + "topos/location/location.impl.h", V + "topos/location/cache/cache.impl.h", V + "vrt/collection/holders", V + "vrt/collection/migrate"],
     [("home node directory and caches", V + "topos/location/location.impl.h"), ("buffered messages for absent elements", V + "vrt/collection/manager.impl.h")],
     [], ["proxy[idx].send / element handlers, migrate"])
prop("C12", "Collections hold exactly the elements requested until destroyed",
     "After a collection is constructed, exactly the requested indices exist, each constructed once with its index, on the node its mapping gives; dynamic insertion and removal inside a modification epoch take effect exactly once and destruction removes every element once. "
     "A broadcast reaches every existing element exactly once and a reduction over the collection combines each element's contribution exactly once.",
     ["schedules", "programs", "inputs"],
     "All bounds, mappings (block, cyclic, custom, unmapped), insertion patterns and migrations, concurrent with broadcasts and reductions.",
     "Tests build collections of fixed size and quiesce between steps; racing broadcasts with migration and insertion is not covered.",
     [V + "vrt/collection/manager.cc", V + "vrt/collection/manager.impl.h", V + "vrt/collection/param", V + "vrt/collection/insert", V + "topos/mapping"],
     [("constructive insertion and modification epochs", V + "vrt/collection/manager.impl.h")], [], ["makeCollection builder, elm.insert/destroy, broadcast, reduce"])
prop("C13", "Load balancing conserves elements and their state",
     "Running a phase change with any load balancer leaves every collection with exactly the same elements and element states, each on exactly one node, with pending and later messages still delivered; all nodes run the phase hooks in registered order once per phase and agree on the phase number. "
     "Data-driven balancers migrate only migratable elements.",
     ["schedules", "inputs", "configurations"],
     "All load distributions, balancers, intervals and schedules.",
     "Lost or duplicated elements require migration to race with strategy messages on skewed loads; tests run tiny uniform loads.",
     [V + "vrt/collection/balance/lb_invoke/lb_manager.cc", V + "vrt/collection/balance/baselb/baselb.cc", V + "vrt/collection/balance/greedylb/greedylb.cc", V + "vrt/collection/balance/hierarchicallb/hierlb.cc", V + "vrt/collection/balance/temperedlb/temperedlb.cc", V + "vrt/collection/balance/rotatelb/rotatelb.cc", V + "vrt/collection/balance/randomlb/randomlb.cc", V + "phase/phase_manager.cc"],
     [("migration under an epoch", V + "vrt/collection/balance/baselb/baselb.cc"), ("phase hooks", V + "phase/phase_manager.cc")], [], ["thePhase()->nextPhaseCollective"])
prop("C14", "Recorded load and communication data equal what ran",
     "For every phase, each element's recorded load equals the simulated time its handlers took (total over phase equals the sum over its subphases and no time is attributed to another element), and recorded communication counts and volumes equal the messages actually sent, wherever the element was. "
     "The data kept follow the configured retention: the most recent phases stay available and older ones are released.",
     ["schedules", "programs", "histories"],
     "All sequences of work, sends, subphase and phase changes and migrations, under any clock drift between nodes.",
     "Wall-clock timing makes exact accounting untestable on real clocks; under a simulated clock it is exact.",
     [V + "elm/elm_lb_data.cc", V + "vrt/collection/balance/node_lb_data.cc", V + "vrt/collection/balance/col_lb_data.cc", V + "context/runnable_context/lb_data.h", V + "elm/elm_id_bits.cc"],
     [("start/stop around each runnable", V + "context/runnable_context/lb_data.h"), ("per-phase maps", V + "elm/elm_lb_data.cc")], [], ["ElementLBData, NodeLBData"])
prop("C15", "LB data files read back equal, and damaged ones never yield wrong data",
     "LB data exported by a run (plain or compressed) reads back to the same phases, objects, loads and communication, and a replay or offline balancer placing objects from it reproduces the recorded placement. "
     "If writing was hit by disk errors or the file was cut short, reading either reports the failure or yields only data the run recorded, never different values.",
     ["histories", "crash_points", "fault_sequences", "inputs"],
     "All recorded histories, write chunkings, short reads and writes, error points and truncation points.",
     "Tests read well-formed files from a healthy disk in one call.",
     [V + "vrt/collection/balance/lb_data_holder.cc", V + "vrt/collection/balance/lb_data_restart_reader.cc", V + "vrt/collection/balance/node_lb_data.cc", V + "utils/compress/compressor.cc", V + "utils/json/json_appender.h", V + "utils/json/json_reader.cc", V + "utils/compress/streams_input.cc"],
     [("incremental json appender", V + "utils/json/json_appender.h"), ("brotli streaming", V + "utils/compress/compressor.cc")], [], ["files on the simulated disk, LBDataHolder, restart reader"])
prop("C16", "RDMA handles behave as one shared memory",
     "Through RDMA handles (per node or per index, also sub-handles), a get returns the data most recently put to that element, with puts and gets under exclusive locks serialised, every accumulate and fetch-and-op applied exactly once atomically, and asynchronous requests complete only when their effect is visible as documented. "
     "Operations on one handle or element never affect another.",
     ["schedules", "programs", "histories"],
     "All concurrent operations from all nodes with arbitrary delay and reordering of one-sided operations until they are completed.",
     "Local test runs complete one-sided operations immediately and in order, hiding missing flushes and wrong locks.",
     [V + "rdmahandle/handle.impl.h", V + "rdmahandle/holder.impl.h", V + "rdmahandle/manager.impl.h", V + "rdmahandle/sub_handle.impl.h", V + "rdmahandle/lock_mpi.h", V + "rdmahandle/request_holder.cc"],
     [("MPI windows, locks and flushes", V + "rdmahandle/holder.impl.h")], [], ["theHandle() proxies"])
prop("C17", "Registered RDMA get and put act on the right memory exactly once",
     "A get or put on a registered RDMA handle reads or writes exactly the addressed bytes of the owner's registered memory (or calls the registered functions exactly once with the right arguments and tag), and its completion action runs exactly once after the data is in place; requests arriving before a match is registered are held until then.",
     ["schedules", "programs", "inputs"],
     "All offsets, sizes, tags, concurrent requests and registration orders, with and without RDMA channels.",
     "Tests use one request at a time after a barrier.",
     [V + "rdma/rdma.cc", V + "rdma/state/rdma_state.cc", V + "rdma/channel/rdma_channel.cc"],
     [("request and pending tables", V + "rdma/state/rdma_state.cc")], [], ["theRDMA()->getData/putData"])
prop("C18", "Callbacks fire exactly where and as often as they are triggered",
     "Each trigger of a callback (to a function, lambda, context, send or broadcast target, object group or collection element; single or multi-target) runs each of its targets exactly once per trigger with the sent data, on the node or element it addresses, from whichever node it is triggered; a bounded callback stops after its number of signals.",
     ["schedules", "programs"],
     "All callback kinds, triggers from all nodes concurrently, any migration of the target element.",
     "Tests trigger each kind once from one place.",
     [V + "pipe/pipe_manager.cc", V + "pipe/pipe_manager_base.cc", V + "pipe/pipe_manager.impl.h", V + "pipe/callback", V + "pipe/state/pipe_state.cc", V + "pipe/id/pipe_id.cc", V + "pipe/signal/signal_holder.impl.h"],
     [("pipe state and signal holders", V + "pipe/state/pipe_state.cc")], [], ["theCB()->make*, Callback::send"])
prop("C19", "Events complete exactly when their operations do",
     "An event tests as complete only after the operation or, for a parent event, all its added operations on any node have finished; every action attached to it (locally or from another node, before or after completion) runs exactly once after completion.",
     ["schedules", "programs"],
     "All event graphs across nodes and completion orders.",
     "Completion orders between remote events are fixed by timing in tests.",
     [V + "event/event.cc", V + "event/event_record.cc", V + "event/event_holder.cc", V + "event/event_id.cc"],
     [("event records with containers", V + "event/event.cc")], [], ["theEvent()"])
prop("C20", "Time triggers fire on schedule under any clock behaviour",
     "A registered periodic trigger first fires immediately or after one period as requested, then never fires before its period has elapsed on the node's clock since its last firing, keeps firing as long as the scheduler polls past its deadline, never fires after it is unregistered, and never disturbs other triggers, whatever jumps and stalls the clock shows.",
     ["schedules", "histories", "fault_sequences"],
     "All sets of triggers with arbitrary periods, (un)registration histories and clock jumps.",
     "Tests use real sleeps with wide tolerances and cannot jump the clock.",
     [V + "timetrigger/time_trigger_manager.cc", V + "timetrigger/trigger.h", V + "scheduler/scheduler.cc"],
     [("queue ordered by next trigger time", V + "timetrigger/time_trigger_manager.cc")], [], ["theTimeTrigger()"])
prop("C21", "Collection checkpoints restore exactly what was saved, through disk faults",
     "A collection checkpointed to files and restored, in the same or a later run on as many nodes and in place or as a new collection, has exactly the same elements with the same states, on the nodes that saved them, and can be used, moved, balanced and saved again like any other; "
     "if writing the checkpoint (to a name of its own) met disk errors or the job died at any point, restoring either fails visibly or yields elements exactly as in a completed checkpoint, never a mixture of wrong data.",
     ["crash_points", "fault_sequences", "histories"],
     "All element states, placements, crash points and disk errors during checkpointing.",
     "Tests checkpoint to a healthy disk and never crash.",
     [V + "vrt/collection/manager.impl.h", V + "vrt/collection/collection_directory.h"],
     [("per-node element files and directory file", V + "vrt/collection/manager.impl.h: checkpointToFile")], [], ["theCollection()->checkpointToFile / restoreFromFile / restoreFromFileInPlace"])
prop("C22", "Message and pooled memory is never reused while in use, and is all returned",
     "Memory handed out by the pool for messages and objects is at least as large as requested, suitably aligned, disjoint from every other live allocation and keeps its contents until released, whatever the order of allocations and releases of all sizes; each message is destroyed exactly once, after its last use by the network and by handlers, and none remain after quiescence.",
     ["schedules", "histories", "inputs"],
     "All allocation and release histories, including releases driven by network completions on any schedule.",
     "Reuse while in flight needs late completion of sends; tests allocate and free in fixed order.",
     [V + "pool/pool.cc", V + "pool/header/pool_header.cc", V + "pool/static_sized/memory_pool_equal.impl.h", V + "messaging/message/smart_ptr.h", V + "messaging/envelope/envelope_ref.h"],
     [("size classes and headers", V + "pool/pool.cc"), ("reference counts in envelopes", V + "messaging/envelope/envelope_ref.impl.h")], [], ["thePool()->alloc/dealloc, message destructors"])
prop("C23", "Trace logs are complete, ordered and properly nested",
     "With tracing on, each node's log contains a begin and an end record for every handler that ran (and for every stretch of one that was suspended) and one record for every message created and every user event, note or datum, in the order they happened, timestamps never decrease, begin/end records nest properly, and each begin refers to the node and event of the message that caused it; flushing at any point loses or repeats nothing, and the control (sts) file names every entry and user event that occurs in any log.",
     ["schedules", "histories", "configurations"],
     "All handler and event histories, flush points and buffer settings.",
     "Tests look at trace file existence or single calls, not at whole histories under flushes.",
     [V + "trace/trace.cc", V + "trace/trace_lite.cc", V + "trace/trace_user_event.cc", V + "trace/trace_containers.cc"],
     [("trace log queue and gz writer", V + "trace/trace_lite.cc: outputTraces")], [], ["per-node log files"])
prop("C24", "Start-up and shutdown complete everywhere and leave nothing running",
     "Runtime start-up and shutdown always complete on all nodes; shutdown returns only when no work remains anywhere in the job, no message sent before it is dropped, and every component is torn down once; the runtime can then be started again in the same process with the same guarantees.",
     ["schedules", "configurations"],
     "All schedules, node speeds, node counts and runtime options, with work in flight when shutdown is called.",
     "Tests finish all work before shutting down and never delay messages.",
     [V + "runtime/runtime.cc", V + "runtime/component/component_pack.cc", V + "collective/startup.cc", V + "context/context.cc", V + "scheduler/scheduler.cc"],
     [("default epoch termination then component finalisation", V + "runtime/runtime.cc: finalize")], [], ["vt::initialize / vt::finalize"])
prop("C25", "Diagnostic counters and reports tell the truth",
     "The counters and gauges of messages that the runtime keeps (active and data messages sent, posted, received and polled, their bytes, broadcasts, termination messages, progress calls) equal what really happened on the node; scheduler and idle times equal the time spent, with nested schedulers too; reductions of any counter, gauge or timer over the nodes give the total, minimum, maximum, mean, deviation and histogram of the values on all nodes, whichever nodes updated them; and the summary written at the end contains these values.",
     ["schedules", "programs"],
     "All programs and schedules.",
     "Tests check meters in isolation, not against a running system, and never reduce over nodes that did not update a value.",
     [V + "runtime/runtime_diagnostics.cc", V + "runtime/component/diagnostic.cc", V + "runtime/component/diagnostic_value.h", V + "messaging/active.cc", V + "scheduler/scheduler.cc"],
     [("reduction of a diagnostic", V + "runtime/component/diagnostic_value.cc"), ("meters", V + "runtime/component/meter"), ("summary", V + "runtime/runtime_diagnostics.cc")], [], ["diagnostic values of the components", "diagnostic summary (CSV)"])
# Pure functions: no schedule, clock, fault, I/O or second party in them.
prop("C30", "Identifier bit fields round-trip",
     "Packing fields into an identifier (epoch, group, event, pipe, handler, proxy, element) and reading them back returns the same fields, and identifiers built from different fields differ.",
     ["inputs"], "All field values.", "Field ranges are too large for examples.",
     [V + "epoch/epoch_manip.cc", V + "group/id/group_id.cc", V + "pipe/id/pipe_id.cc", V + "elm/elm_id_bits.cc", V + "handler/handler.cc", V + "vrt/proxy", V + "utils/bits"],
     [("bit packer", V + "utils/bits/bits_packer.h")],
     na="A pure function of its arguments: no schedule, clock, I/O, fault or second party for a simulation to vary. What depends on it across nodes (epochs, groups, pipes, events, elements staying distinct) is decided end to end by C01-C03, C09, C11, C18 and C19.")
prop("C31", "Index linearisation and mapping functions are bijective and in range",
     "For every bounds, linearising an index gives a distinct value in range, iterating a range visits each index once, and every mapping gives a valid node that is the same on all nodes.",
     ["inputs"], "All bounds, dimensions and node counts.", "Input space too large for examples.",
     [V + "topos/index", V + "topos/mapping/dense/dense.impl.h", V + "topos/mapping/seed"],
     [("dense linearisation", V + "topos/mapping/dense")],
     na="A pure function of bounds and node count; generating inputs for it is not simulation. Its use in placing elements is decided by C12.")
prop("C32", "Option, LB and file specifications accept exactly the documented forms",
     "Options and specification files set the documented parameters, defaults apply to what is not given, and malformed input is rejected with an error rather than misread.",
     ["inputs"], "All option combinations and file contents.", "Input space too large for examples.",
     [V + "configs/arguments/args.cc", V + "vrt/collection/balance/read_lb.cc", V + "utils/file_spec/spec.cc"],
     [("CLI11 options, yaml/config overlay", V + "configs/arguments/args.cc"), ("LB specification parser", V + "vrt/collection/balance/read_lb.cc")],
     na="Parsing a command line or a complete small file is a pure function of its input; no interleaving, clock, fault or second party takes part.")
prop("C33", "Names, units and statistics are computed exactly",
     "Demangled names, memory-unit formatting, histogram approximations, linear-model fits and table formatting equal their mathematical definition for all inputs.",
     ["inputs"], "All inputs.", "Input space too large for examples.",
     [V + "utils/demangle", V + "utils/memory/memory_units.cc", V + "utils/stats/linear_regression.h", V + "utils/adt/histogram_approx.h"],
     [("formulae", V + "utils")],
     na="Pure numeric or text functions without schedule, clock, fault or I/O; outside what simulation decides.")


def main():
    sys.path.insert(0, HERE)
    import props
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p["rec"]) + "\n")
    claimed = {p["id"]: p for p in props.ALL}
    checks, na = [], []
    for p in P:
        i = p["rec"]["id"]
        if i in claimed:
            c = claimed[i]
            checks.append(dict(
                property=i,
                quick_cmd="python3 tools/vsim.py check %s" % i,
                thorough_cmd="python3 tools/vsim.py check %s" % i,
                technique="deterministic simulation with fault injection: seeded search over schedules and faults of a whole simulated vt job",
                level="exploration",
                level_note=c.get("level_note") or
                "Sampled, not exhaustive: thousands of seeded executions of the whole unmodified runtime on a simulated MPI, clock and disk, judged by "
                "an independent oracle in the workload; trusts the MPI simulation, the serialization stand-in and single-threaded nodes that interleave at MPI calls."))
        else:
            na.append(dict(property=i, reason=p["na"] or "No check registered yet."))
    m = dict(version=1, setup_cmd="python3 tools/vsim.py setup", checks=checks, not_applicable=na,
             notes="No hooks in /repo: the simulator substitutes MPI (mpi.h), the clock and sleeping, std::random_device and file calls at link and load time. See DESIGN.md.")
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
