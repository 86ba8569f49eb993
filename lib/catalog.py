"""The properties: text for properties.jsonl, and how run.py decides each one.

`python3 lib/catalog.py` rewrites properties.jsonl and MANIFEST.json from this file.
"""
import json
import os

TECH = "property-based testing: "


def world(suite, quick, thorough):
    return {"name": suite, "src": ["pbt.cpp", "h_world.cpp"], "bin": "h_world", "suite": suite, "config": "asan",
            "quick": quick, "thorough": thorough}


WORLD_ASSUME = [
    "memory resources are stand-in host resources that record every request, plus the real HOST resource; no GPU backends",
    "camp is replaced by the stand-in headers under /verif/shim",
    "allocator parameters, sizes and histories are bounded (at most about 210 operations, 8 allocators, 16 MB live)",
]

def harness(name, src, quick, thorough, suite=None, config="asan", **kw):
    d = {"name": name, "src": ["pbt.cpp", src + ".cpp"], "bin": src, "config": config, "quick": quick, "thorough": thorough}
    if suite:
        d["suite"] = suite
    d.update(kw)
    return d


CAT = []


def prop(pid, title, statement, over, qtext, why, files, mech, parts, technique, note, level="exploration",
         state=None, observe=None, assumptions=None):
    CAT.append(dict(id=pid, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                    parts=parts, technique=technique, note=note, level=level, state=state or [],
                    observe=observe or "", assumptions=assumptions or WORLD_ASSUME))


S = "src/umpire/strategy/"
U = "src/umpire/util/"
WRAP = ["-Wl,--wrap=open,--wrap=open64,--wrap=ftruncate,--wrap=ftruncate64,--wrap=mmap,--wrap=mmap64"]
GEN_NOTE = ("Random model-based search over histories with a reference model; sanitizers on. Finds violations, "
            "does not prove absence; bounds are in the evidence file.")

prop("C01", "Live allocations are disjoint, inside their parent's memory, and keep data",
     "Every live allocation occupies memory its allocator really holds: it lies inside a block obtained from the parent or memory "
     "resource, never overlaps another live allocation from any allocator, and is fully writable for the requested size. Data "
     "written there stays unchanged until the owner frees, moves, reallocates or overwrites it, whatever other allocations, frees, "
     "releases or coalescing happen in between.",
     ["histories", "configurations", "inputs"],
     "for every tree of allocators and strategies, every parameter set, every history of allocate/deallocate/release/coalesce/"
     "reallocate/move/copy, at every point",
     "The strategy tests allocate a handful of fixed sizes; overlap needs particular sequences of splits, merges and coalescing.",
     [S + "QuickPool.cpp", S + "DynamicPoolList.cpp", S + "FixedPool.cpp", S + "MixedPool.cpp", S + "SlotPool.cpp",
      S + "MonotonicAllocationStrategy.cpp", S + "AlignedAllocator.cpp", S + "mixins/AlignedAllocation.inl", S + "ThreadSafeAllocator.cpp"],
     [("chunk splitting and merging", S + "QuickPool.cpp: allocate, deallocate"),
      ("block lists", S + "DynamicPoolList.hpp"), ("bitmap of free objects", S + "FixedPool.cpp")],
     [world("place", 14000, 120000)], TECH + "stateful model-based histories over random allocator trees, ASan, byte patterns",
     GEN_NOTE)

prop("C02", "Returned pointers honour the alignment the allocator promises",
     "Every non-empty allocation from a pool built with an alignment, from an aligned-allocation adaptor, or from a mixed or "
     "fixed-size pool starts at an address that satisfies that strategy's alignment, even when the parent's blocks are only "
     "weakly aligned. The adaptor refuses alignments that are not powers of two or are below 16.",
     ["histories", "configurations", "inputs"],
     "for every alignment, every request size, every parent alignment (including skewed parent blocks) and every history",
     "Tests check one alignment over malloc, which already returns 16-byte aligned memory.",
     [S + "mixins/AlignedAllocation.inl", S + "AlignedAllocator.cpp", S + "QuickPool.cpp", S + "DynamicPoolList.cpp"],
     [("padding and rounding", S + "mixins/AlignedAllocation.inl"), ("adaptor", S + "AlignedAllocator.cpp: constructor, align_create")],
     [world("align", 12000, 100000)], TECH + "histories over parents with skewed blocks, alignment oracle", GEN_NOTE)

prop("C03", "Current size, high watermark and allocation count are exact",
     "For every allocator, at every point of every history, the reported current size and allocation count equal the sum and number "
     "of its live allocations and the high watermark equals the largest current size it ever had. Failed, rejected or refused "
     "operations change none of them, and reallocating or moving memory is counted like the allocation and deallocation it performs.",
     ["histories", "configurations", "fault_sequences"],
     "for every allocator tree and history, including operations that throw",
     "Tests check the counters after one or two allocations from one allocator.",
     [S + "mixins/Inspector.cpp", S + "AllocationStrategy.cpp", "src/umpire/Allocator.inl", "src/umpire/op/HostReallocateOperation.cpp"],
     [("accounting", S + "mixins/Inspector.cpp"), ("internal accounting of parents", S + "AllocationStrategy.cpp: allocate_internal")],
     [world("stats", 12000, 100000)], TECH + "stateful histories against a counting model", GEN_NOTE)

prop("C04", "Pool statistics describe the pool's real memory",
     "At every point, what a pool reports - actual size, releasable size and blocks, total blocks, pieces in the pool, largest "
     "available block, aligned size and the actual-size high watermark - equals what can be computed from the blocks it holds from "
     "its parent and the allocations currently served from them.",
     ["histories", "configurations"],
     "for every pool configuration and history of allocation, deallocation, release and coalescing",
     "Tests compare a few statistics after short fixed sequences; the numbers drift only after particular merge/split/coalesce orders.",
     [S + "QuickPool.cpp", S + "DynamicPoolList.cpp", S + "DynamicPoolList.hpp", S + "DynamicSizePool.hpp", S + "FixedPool.cpp", S + "MixedPool.cpp"],
     [("statistics", S + "QuickPool.cpp: getReleasableSize, getLargestAvailableBlock, getBlocksInPool"),
      ("statistics", S + "DynamicPoolList.cpp")],
     [world("pool", 12000, 100000)], TECH + "stateful histories against a block/fragment model fed by an interposed parent", GEN_NOTE)

prop("C05", "Memory taken from a parent is returned exactly once and can be reclaimed",
     "A strategy returns each block it obtained from its parent at most once, with the size it was obtained with, and never while "
     "any of its memory is in use. Once all allocations are freed, releasing a pool gives every block back and destroying any "
     "strategy leaves nothing outstanding at its parent.",
     ["histories", "configurations", "fault_sequences"],
     "for every strategy, parameter set, history, release point and destruction point, including parents that refuse requests",
     "Tests look at the pool's own counters, not at what the parent received; leaks and double returns need specific orders.",
     [S + "QuickPool.cpp", S + "DynamicPoolList.hpp", S + "FixedPool.cpp", S + "SlotPool.cpp", S + "NamingShim.cpp",
      S + "MonotonicAllocationStrategy.cpp", S + "SizeLimiter.cpp"],
     [("release", S + "QuickPool.cpp: release"), ("destructors", S + "FixedPool.cpp"), ("size passed to parent", S + "NamingShim.cpp")],
     [world("reclaim", 12000, 100000), harness("destroy", "h_exit", 30000, 400000, "destroy")], TECH + "histories with an interposed recording parent (protocol oracle)", GEN_NOTE)

prop("C06", "A refused allocation changes nothing and later requests are served",
     "When memory runs out below an allocator at any point, the failing operation throws an error and every allocator, live "
     "allocation, lookup and statistic is as before, except that pools may have given free memory back. Deallocation keeps working, "
     "and once memory is available again every allocator serves requests normally.",
     ["fault_sequences", "histories", "configurations"],
     "for every point at which the parent or resource refuses a request, during construction, allocation, coalescing, reallocation and move",
     "No test injects an allocation failure below a strategy.",
     [S + "QuickPool.cpp", S + "DynamicPoolList.cpp", S + "FixedPool.cpp", S + "SlotPool.cpp", S + "SizeLimiter.cpp",
      S + "AllocationStrategy.cpp", "src/umpire/op/HostReallocateOperation.cpp"],
     [("retry after release", S + "QuickPool.cpp: allocate_block"), ("failure paths", S + "SizeLimiter.cpp")],
     [world("faults", 14000, 120000)], "property-based testing with fault injection at generated points, model-based oracle",
     GEN_NOTE, level="fault_enumeration")

prop("C07", "Requests too large to serve are refused, never wrapped to a small size",
     "A request for a size that cannot be provided, up to the largest representable size and including sizes that would wrap when "
     "rounded, padded or charged, is refused with an exception. Nothing is allocated or counted for it and existing allocations and "
     "their contents stay intact. The same holds for a pool made with sizes, counts or multipliers whose product does not fit.",
     ["inputs", "configurations", "histories"],
     "for every strategy, every size near the limits of the size type, in every reachable state",
     "Tests never pass sizes near the maximum.",
     [S + "mixins/AlignedAllocation.inl", S + "AlignedAllocator.cpp", S + "SizeLimiter.cpp", S + "MonotonicAllocationStrategy.cpp",
      S + "MixedPool.cpp"],
     [("rounding", S + "mixins/AlignedAllocation.inl: aligned_round_up"), ("limit test", S + "SizeLimiter.cpp")],
     [world("huge", 12000, 100000)], TECH + "boundary-biased sizes inside random histories, model oracle", GEN_NOTE)

prop("C08", "A size limiter never lets more than its limit be outstanding",
     "The bytes outstanding through a size limiter never exceed its limit; a request that would exceed it throws and has no effect; "
     "a request that fits is not refused by the limiter, in particular freed or failed requests do not use up the limit.",
     ["histories", "inputs", "fault_sequences"],
     "for every limit, every sequence of requests and frees, including requests that fail below the limiter",
     "One test exceeds one limit once.",
     [S + "SizeLimiter.cpp"], [("charge and refund", S + "SizeLimiter.cpp: allocate, deallocate")],
     [world("limit", 12000, 100000)], TECH + "stateful histories against an exact charge model", GEN_NOTE)

prop("C09", "Fixed, monotonic, slot and mixed pools keep their capacity contracts",
     "A fixed-size pool serves its object size and grows as needed; a monotonic allocator serves consecutive memory until its "
     "capacity and refuses only what does not fit; a slot pool holds at most its number of slots and reuses a free slot of "
     "the same size; a mixed pool serves every size. Requests they cannot serve are refused with an exception instead of returning unusable memory.",
     ["histories", "configurations", "inputs"],
     "for every capacity, slot count, object size and request sequence",
     "Each strategy has one or two tests with a few allocations, none at exhaustion.",
     [S + "FixedPool.cpp", S + "MonotonicAllocationStrategy.cpp", S + "SlotPool.cpp", S + "MixedPool.cpp"],
     [("capacity check", S + "MonotonicAllocationStrategy.cpp: allocate"), ("slot search", S + "SlotPool.cpp: allocate"),
      ("pool selection", S + "MixedPool.cpp: allocate")],
     [world("capacity", 14000, 120000)], TECH + "stateful histories against per-strategy capacity models", GEN_NOTE)

prop("C10", "Any pointer is attributed to exactly the allocation that contains it",
     "For every address, the library finds an owning allocator, base, size and record exactly when the address lies inside a live "
     "tracked allocation, and these are the ones of that allocation. Addresses before, after or between allocations, or inside freed "
     "ones, are reported as unknown.",
     ["histories", "inputs", "configurations"],
     "for every history and every probed address: base, interior, last byte, one past the end, one before, freed and foreign",
     "Tests look up one pointer or one offset.",
     ["src/umpire/ResourceManager.cpp", "src/umpire/util/AllocationMap.cpp", "src/umpire/util/MemoryMap.inl", "src/tpl/umpire/judy/judy.c"],
     [("lookup", "src/umpire/util/AllocationMap.cpp: find"), ("predecessor search", "src/umpire/util/MemoryMap.inl: findOrBefore")],
     [world("lookup", 10000, 90000)], TECH + "histories with address probes against an interval model", GEN_NOTE)

prop("C11", "Deallocating what an allocator does not own is refused and harmless",
     "Deallocating through an allocator a pointer it did not return - owned by another allocator, inside an allocation, already "
     "freed or never allocated - throws and leaves every allocation, record and statistic unchanged; deallocating null does nothing.",
     ["histories", "inputs"],
     "for every history and every kind of wrong pointer at every point",
     "Tests deallocate one wrong pointer in one state and do not check the state afterwards.",
     [S + "mixins/Inspector.cpp", "src/umpire/Allocator.inl", "src/umpire/util/AllocationMap.cpp"],
     [("ownership test", S + "mixins/Inspector.cpp: deregisterAllocation"), ("removal", "src/umpire/util/AllocationMap.cpp: remove")],
     [world("misuse", 12000, 100000)], TECH + "histories with generated misuse, state-unchanged oracle", GEN_NOTE)

prop("C12", "Zero-byte allocations are unique, tracked and freeable",
     "Allocating zero bytes from any allocator returns a non-null pointer that differs from every other live zero-byte allocation, "
     "is attributed to that allocator with size zero, counts as one allocation of no bytes, and can be freed, copied, moved and reallocated.",
     ["histories", "configurations"],
     "for every allocator and every interleaving of zero-byte and ordinary operations",
     "Tests allocate and free zero bytes once per allocator.",
     ["src/umpire/Allocator.inl", "src/umpire/ResourceManager.cpp", "src/umpire/op/HostReallocateOperation.cpp"],
     [("zero-byte pool", "src/umpire/Allocator.inl"), ("reallocation to and from zero", "src/umpire/ResourceManager.cpp: reallocate_impl")],
     [world("zero", 12000, 100000)], TECH + "stateful histories against a model", GEN_NOTE)

prop("C13", "copy and memset touch exactly the requested bytes, or nothing",
     "copy and memset write exactly the requested bytes at the requested offsets, or everything up to the end of the source "
     "(copy) or of the allocation (memset) when no length is given, and leave all other bytes alone. Requests that run past the "
     "end of the destination throw and change nothing.",
     ["inputs", "histories"],
     "for every pair of allocations, offsets and lengths, for the plain and the asynchronous interface",
     "Tests copy whole arrays from offset zero and a few fixed offsets.",
     ["src/umpire/ResourceManager.cpp", "src/umpire/op/HostCopyOperation.cpp", "src/umpire/op/HostMemsetOperation.cpp"],
     [("bounds", "src/umpire/ResourceManager.cpp: copy, memset")],
     [world("copy", 12000, 100000)], TECH + "generated offsets/lengths against shadow contents of every allocation", GEN_NOTE)

prop("C14", "reallocate and move preserve contents, ownership and bookkeeping",
     "reallocate returns memory of the new size from the same allocator whose first min(old, new) bytes are the old contents, and "
     "move returns an equal copy owned by the target allocator; in both cases the old allocation is gone. Null, zero sizes, offset "
     "pointers and wrong allocators are handled as documented, and a failure leaves the original allocation intact and registered.",
     ["inputs", "histories", "fault_sequences"],
     "for every old/new size pair, allocator pair, history and failure below the allocator",
     "Tests cover growth and shrink by fixed factors on a fresh allocator.",
     ["src/umpire/ResourceManager.cpp", "src/umpire/op/HostReallocateOperation.cpp", "src/umpire/op/GenericReallocateOperation.cpp"],
     [("dispatch", "src/umpire/ResourceManager.cpp: reallocate_impl, move"), ("in place", "src/umpire/op/HostReallocateOperation.cpp")],
     [world("realloc", 12000, 100000)], TECH + "stateful histories, contents and bookkeeping oracles, injected failures", GEN_NOTE)

prop("C16", "The record store behaves like an ordered map of address intervals",
     "The store of allocation records answers insert, find, find-by-containing-address, removal, printing, size and iteration exactly as an "
     "ordered map with a stack of records per base address would, for any address pattern, and reports absent "
     "addresses with an error.",
     ["histories", "inputs"],
     "for every sequence of operations and every address pattern (dense, sparse, far apart, extreme bits)",
     "Unit tests insert up to a few records at stack addresses.",
     ["src/umpire/util/AllocationMap.cpp", "src/umpire/util/MemoryMap.inl", "src/tpl/umpire/judy/judy.c"],
     [("record lists", "src/umpire/util/AllocationMap.cpp: RecordList"), ("tree navigation", "src/tpl/umpire/judy/judy.c")],
     [{"name": "allocmap", "src": ["pbt.cpp", "h_allocmap.cpp"], "bin": "h_allocmap", "config": "asan", "quick": 7000,
       "thorough": 200000}],
     TECH + "stateful differential test against std::map", GEN_NOTE,
     assumptions=["addresses are synthetic; the store never dereferences them"])

prop("C28", "Pools coalesce when, and only when, their heuristic says so",
     "After a deallocation a pool coalesces its free memory exactly when its configured heuristic, evaluated on the pool's real "
     "state, asks for it, and it coalesces to the size the heuristic names; explicit coalescing and releasing act likewise. "
     "Live allocations are never affected.",
     ["histories", "configurations"],
     "for every built-in heuristic and parameter, both pool kinds, every history",
     "Tests check one percentage and one block count on fixed sequences.",
     [S + "QuickPool.cpp", S + "DynamicPoolList.cpp", S + "PoolCoalesceHeuristic.hpp"],
     [("heuristics", S + "QuickPool.cpp: percent_releasable, blocks_releasable and _hwm"), ("coalescing", S + "QuickPool.cpp: do_coalesce")],
     [world("coalesce", 14000, 120000)], TECH + "stateful histories against a model of each heuristic", GEN_NOTE)

prop("C30", "Pools reuse free memory before growing and grow by the configured amounts",
     "A pool takes new memory from its parent only when no free piece it holds can serve the request, and then takes one block of "
     "the configured initial or next size, or just the request if that is larger. Freed neighbouring pieces are merged so that freed memory is reusable.",
     ["histories", "configurations"],
     "for every pool configuration and every allocation/deallocation history",
     "Tests check growth once or twice from an empty pool.",
     [S + "QuickPool.cpp", S + "DynamicPoolList.cpp", S + "DynamicPoolList.hpp"],
     [("growth", S + "QuickPool.cpp: allocate"), ("merge of neighbours", S + "QuickPool.cpp: deallocate")],
     [world("growth", 14000, 120000)], TECH + "stateful histories against a free-fragment model fed by a recording parent", GEN_NOTE)



prop("C17", "The address-keyed map behaves like an ordered map",
     "The map from addresses to values and the Judy arrays below it answer insertion, overwriting, lookup, nearest-key lookup, "
     "removal, clearing, size and iteration in both directions exactly as an ordered map would, for any pattern of non-zero keys. "
     "Values live exactly as long as their entry and an iterator continues with the next larger key present.",
     ["histories", "inputs"],
     "for every sequence of operations and every key pattern (dense, strided, far apart, extreme bits), including iterators kept "
     "while the map changes",
     "Unit tests use a handful of keys; the tree has seven node kinds with promotion, splitting and shrinking that depend on key patterns.",
     [U + "MemoryMap.inl", U + "MemoryMap.hpp", "src/tpl/umpire/judy/judy.c", "src/tpl/umpire/judy/judyLArray.h", "src/tpl/umpire/judy/judyL2Array.h"],
     [("map", U + "MemoryMap.inl: doInsert, findOrBefore, erase, iterators"),
      ("tree", "src/tpl/umpire/judy/judy.c: judy_cell, judy_slot, judy_del, judy_nxt, judy_prv")],
     [harness("maps", "h_maps", 14000, 200000, "maps")],
     TECH + "stateful differential test against std::map", GEN_NOTE,
     assumptions=["keys are synthetic 64-bit values; key 0 is never stored", "little-endian 64-bit build"])

prop("C18", "The internal object pools hand out disjoint objects and reuse freed ones",
     "Each of the library's internal fixed-size object pools never returns an object that is live, that overlaps another live object or that lies "
     "outside its blocks; objects keep their contents until given back, and a new block is taken only when every object is in use. "
     "The lowest-set-bit helper used by the pools returns the one-based index of the lowest set bit, and zero for zero.",
     ["histories", "inputs"],
     "for every object size, objects per block and history of taking and returning, and every word",
     "The unit test fills one pool once; reuse order and block boundaries depend on the history.",
     [U + "FixedMallocPool.cpp", U + "FixedMallocPool.hpp", U + "find_first_set.hpp", S + "FixedSizePool.hpp"],
     [("free list", U + "FixedMallocPool.cpp: allocInPool, deallocate"), ("bit search", U + "find_first_set.hpp")],
     [harness("fixedmalloc", "h_maps", 12000, 100000, "fixedmalloc")],
     TECH + "stateful histories with byte patterns and ASan; random words against a bit loop", GEN_NOTE,
     assumptions=["object sizes up to 512 bytes, up to about 4000 objects per block"])

prop("C15", "Names, ids, aliases and the default allocator always resolve correctly",
     "Every allocator has a unique name and id; looking either up, or looking up an alias, a resource type or a pointer, returns "
     "that allocator, and unknown, removed or internal ones are refused. Creating an allocator or alias under a taken name, removing what is "
     "not an alias and making an unknown resource fail and change nothing. The default allocator is the host allocator until another is set.",
     ["histories", "inputs"],
     "for every sequence of making allocators and resources, adding and removing aliases, setting the default and looking up",
     "Tests register a few names; stale or phantom entries need failed constructions, alias removal and reuse in particular orders.",
     ["src/umpire/ResourceManager.cpp", "src/umpire/ResourceManager.inl", "src/umpire/resource/MemoryResourceRegistry.cpp",
      "src/umpire/resource/MemoryResourceTypes.hpp"],
     [("registration", "src/umpire/ResourceManager.inl: makeAllocator"), ("resources", "src/umpire/ResourceManager.cpp: makeResource"),
      ("aliases", "src/umpire/ResourceManager.cpp: addAlias, removeAlias")],
     [harness("registry", "h_info", 8000, 120000, "registry")], TECH + "stateful histories against a map model of the registry", GEN_NOTE,
     assumptions=["resources HOST and FILE only; no GPU resources"])

prop("C24", "Log and error output arrives complete, in order and only when enabled",
     "Text written to the output buffer reaches every attached sink byte for byte and a refusing sink is reported; messages appear in "
     "the log file in order, in the documented format, exactly when their level is enabled by UMPIRE_LOG_LEVEL or the last level set, "
     "and an error is in the file before its exception is thrown. Output files never overwrite existing ones.",
     ["inputs", "histories", "configurations"],
     "for every byte string, sink failure, level setting, environment and set of existing files",
     "Unit tests write one string to two good sinks; no test reads a log file or fails a sink.",
     [U + "OutputBuffer.cpp", U + "Logger.cpp", U + "io.cpp", U + "Macros.hpp"],
     [("sinks", U + "OutputBuffer.cpp: overflow, sync"), ("levels and format", U + "Logger.cpp"),
      ("files", U + "io.cpp: initialize_io, make_unique_filename")],
     [harness("io", "h_io", 16000, 200000)], TECH + "generated writes with failing sinks against byte models; log files parsed and compared", GEN_NOTE,
     assumptions=["single process, no MPI", "sinks that fail are stand-in stream buffers"])

prop("C25", "Introspection and error reports describe the live allocations exactly",
     "The records listed or printed for an allocator are exactly its live allocations with their address, size and name, external ones included; overlap and "
     "containment of two allocations follow their address ranges; pools report whether they were coalesced. Errors name the pointer, allocator and "
     "requested size they are about, fragmentation equals one minus the largest free gap over all free gaps, and the process's memory use is what the system reports.",
     ["histories", "inputs"],
     "for every history of allocations and registrations, every pair of address ranges and every error",
     "Tests inspect one or two records; overlap is tested on one pair.",
     ["src/umpire/Umpire.cpp", U + "error.hpp", U + "allocation_statistics.cpp", U + "AllocationMap.cpp"],
     [("records", "src/umpire/Umpire.cpp: get_allocator_records, print_allocator_records"),
      ("ranges", "src/umpire/Umpire.cpp: pointer_overlaps, pointer_contains"), ("errors", U + "error.hpp"),
      ("fragmentation", U + "allocation_statistics.cpp: relative_fragmentation")],
     [harness("introspect", "h_info", 14000, 200000, "introspect")], TECH + "histories with overlapping external ranges against an interval model", GEN_NOTE,
     assumptions=["external allocations may overlap each other; lookups use their base addresses"])

prop("C29", "Exit tears everything down cleanly and reports what was leaked",
     "When the process exits, with or without live allocations, nothing crashes: every strategy gives its idle blocks back to its parent before "
     "the parent is destroyed, each once (a fixed-size pool with leaked objects keeps its blocks). Every allocator that still has bytes allocated is reported once in the log with that number and its allocations, "
     "and nothing is reported when everything was freed.",
     ["histories", "configurations"],
     "for every tree of allocators, history and set of allocations left at exit",
     "Tests never look at what happens after main returns.",
     ["src/umpire/ResourceManager.cpp", S + "QuickPool.cpp", S + "DynamicSizePool.hpp", S + "FixedPool.cpp", S + "SlotPool.cpp", S + "MonotonicAllocationStrategy.cpp"],
     [("leak report", "src/umpire/ResourceManager.cpp: ~ResourceManager"), ("destructors", S + "FixedPool.cpp: ~FixedPool")],
     [harness("exit", "h_exit", 8000, 100000, "exit")], TECH + "generated processes that exit; log and a recording memory resource as oracle", GEN_NOTE,
     assumptions=["a monotonic allocator counts as holding what it ever served"])

prop("C19", "Concurrent use through thread-safe allocators is race-free and consistent",
     "Threads that allocate, free, reallocate, copy and query through one ThreadSafeAllocator, through several of them, or each through an "
     "allocator chain of its own behave as if their calls happened one after the other: no data race or deadlock, disjoint live memory, unchanged data, exact "
     "statistics and records afterwards. A pointer may be freed by a thread other than the one that got it, and allocators made concurrently get distinct ids and names.",
     ["schedules", "histories", "configurations"],
     "for every interleaving of two to four threads, every history per thread and every strategy below the thread-safe allocator",
     "The threading tests run one fixed loop without a race detector; a missing lock shows up in few interleavings.",
     [S + "ThreadSafeAllocator.cpp", "src/umpire/Allocator.inl", "src/umpire/Allocator.cpp", U + "AllocationMap.cpp", "src/umpire/ResourceManager.inl",
      S + "mixins/AllocateNull.cpp"],
     [("lock per thread-safe allocator", "src/umpire/Allocator.inl: thread_safe_allocate, thread_safe_deallocate"),
      ("lock of the records", U + "AllocationMap.cpp"), ("lock of registration", "src/umpire/ResourceManager.inl: makeAllocator")],
     [harness("threads", "h_threads", 10000, 100000, config="tsan", confirm=1, tries=40)],
     TECH + "generated multi-threaded histories under ThreadSanitizer (happens-before oracle) with data, overlap and statistics oracles", GEN_NOTE,
     assumptions=["each ThreadSafeAllocator has its own chain of strategies down to its own memory resource; statistics are read after the threads ended",
                  "the allocators in use exist before the threads start, except in the case family that makes allocators concurrently",
                  "interleavings are those the scheduler produces; the race oracle does not depend on the exact interleaving"])

prop("C22", "FILE memory is file-backed while live and leaves nothing behind",
     "Every live FILE allocation is backed by exactly one page-rounded file in the configured directory whose content is the memory's content; freeing it, "
     "or ending the process, removes the file, and no file descriptor stays open. When the file cannot be made, sized or mapped, or an operation is refused, an error is thrown and no "
     "file, descriptor, record or statistic changes.",
     ["histories", "inputs", "fault_sequences"],
     "for every history of FILE allocations, direct or through pools, every size, directory change, stale file and failing system call",
     "The test allocates two sizes once; no test fails a system call, looks at the directory or at the end of the process.",
     ["src/umpire/resource/FileMemoryResource.cpp", "src/umpire/resource/FileMemoryResource.hpp", "src/umpire/op/GenericReallocateOperation.cpp", "src/umpire/ResourceManager.cpp"],
     [("files", "src/umpire/resource/FileMemoryResource.cpp: allocate, deallocate, ~FileMemoryResource"),
      ("refused operations", "src/umpire/ResourceManager.cpp: move; src/umpire/op/GenericReallocateOperation.cpp: transform")],
     [harness("file", "h_res", 3000, 30000, "file", build={"extra_link": WRAP})],
     TECH + "stateful histories in processes that exit, with injected failures of open, ftruncate and mmap; the directory is the oracle", GEN_NOTE,
     assumptions=["failures are injected by wrapping open, ftruncate and mmap at link time", "no UMap"])

prop("C23", "Shared memory: one name is one block in every process until the last free",
     "Allocating a name gives every attached process the same block with the same content, and it stays until each allocation of it was freed; "
     "different names never overlap and lie inside the segment. A request is refused only when no free piece is large enough or, for a live name, its block is too small; memory freed by any process is merged and reusable, "
     "and a segment that cannot be set up is refused and leaves nothing behind.",
     ["histories", "schedules", "inputs", "fault_sequences"],
     "for every segment size, set of names and sizes, and every interleaving of allocating, freeing, looking up, writing and ending by one to four processes",
     "Tests use one process and a few names, or need MPI; fragmentation and reference counts depend on the history.",
     ["src/umpire/resource/HostSharedMemoryResourceImpl.hpp", "src/umpire/resource/HostSharedMemoryResource.cpp", "src/umpire/Umpire.cpp", S + "NamingShim.cpp"],
     [("free list and reference counts", "src/umpire/resource/HostSharedMemoryResourceImpl.hpp: allocate_named, deallocate, releaseBlock, splitBlock"),
      ("set-up", "src/umpire/resource/HostSharedMemoryResourceImpl.hpp: impl"), ("lookup", "src/umpire/Umpire.cpp: find_pointer_from_name")],
     [harness("shm", "h_res", 4000, 40000, "shm", build={"extra_link": WRAP}, confirm=1, tries=40)],
     TECH + "stateful multi-process histories against a model of the segment, concurrent process storms, injected set-up failures", GEN_NOTE,
     assumptions=["names contain no zero byte", "a process does not attach after another one that ended has removed the segment's name",
                  "no process dies while it holds the segment's lock"])

prop("C26", "With sanitizer support pools expose exactly the live memory",
     "In a build with AddressSanitizer support, touching a byte of a live allocation is never reported, and touching a byte that a pool holds outside its live allocations is. "
     "Memory a pool gave back to its parent is usable again without reports.",
     ["histories", "configurations"],
     "for every pool kind and parameter set, every parent and every history of allocating, freeing, releasing and coalescing",
     "No stable test builds with the option; the sanitizer tests check one use after free.",
     [S + "QuickPool.cpp", S + "DynamicSizePool.hpp", S + "mixins/AlignedAllocation.inl", U + "memory_sanitizers.hpp"],
     [("poisoning", S + "mixins/AlignedAllocation.inl: aligned_allocate, aligned_deallocate; " + S + "QuickPool.cpp"), ("macros", U + "memory_sanitizers.hpp")],
     [harness("poison", "h_poison", 24000, 200000, config="poison")],
     TECH + "stateful histories; AddressSanitizer's shadow memory is compared with the model after every operation", GEN_NOTE,
     assumptions=["a partial 8-byte granule at the end of a parent block cannot be expressed in the shadow memory and is not checked"])

prop("C27", "Typed allocators serve standard containers from the chosen allocator",
     "A standard container using a typed allocator holds the same elements as with the standard allocator after any history of container operations; all its memory is "
     "tracked memory of the chosen allocator and returns when it is destroyed. Typed allocators are equal exactly when they use the same allocator, and a number of objects whose byte count does not fit is refused.",
     ["histories", "inputs"],
     "for every container, element size, allocator and history including copies, moves and swaps between containers, and every object count",
     "Tests push a few ints into one vector.",
     ["src/umpire/TypedAllocator.hpp", "src/umpire/TypedAllocator.inl"],
     [("typed allocation", "src/umpire/TypedAllocator.inl: allocate, deallocate, operator==")],
     [harness("typed", "h_typed", 16000, 160000)], TECH + "differential histories of containers against the same containers with std::allocator", GEN_NOTE,
     assumptions=["element types need at most 16-byte alignment"])

prop("C20", "The event log is a faithful record, and replaying it reproduces the run",
     "With recording on, each completed operation leaves events in the log from which the set of live allocations, their sizes and allocators can be rebuilt "
     "exactly, whatever the names and text in it; events stored and read back are equal to those recorded. The replay tool accepts every such log and ends with the same allocators, current "
     "sizes, high watermarks, counts and pool blocks as the recorded program; its options change only pool internals, and replaydiff tells equal logs from different ones.",
     ["histories", "inputs", "configurations"],
     "for every history of allocations, frees, reallocations, copies, releases and coalescing over allocators the replay tool knows, every name and every replay option",
     "The replay tests compare one recorded program; escaping, unusual events and options appear in no test.",
     ["src/umpire/event/json_file_store.cpp", "src/umpire/event/sqlite_database.cpp", "src/umpire/event/event.hpp", "src/umpire/event/event_json.hpp", "tools/replay/ReplayInterpreter.cpp", "tools/replay/ReplayOperationManager.cpp", "tools/replay/ReplayFile.cpp"],
     [("recording", "src/umpire/event/recorder_factory.cpp; src/umpire/event/json_file_store.cpp, sqlite_database.cpp"),
      ("compiling the log", "tools/replay/ReplayInterpreter.cpp: buildOperations"), ("re-execution", "tools/replay/ReplayOperationManager.cpp: runOperations"),
      ("comparison", "tools/replay/ReplayInterpreter.cpp: compareOperations")],
     [harness("replay", "h_replay", 4000, 40000, build={"tools": True}),
      harness("sqlite", "h_replay", 1500, 20000, config="sqlite", bin="h_sqlite", build={"tools": True, "extra_link": ["-lsqlite3"]})],
     TECH + "round trip of generated event streams, and generated histories recorded, rebuilt from the log and replayed by the real tool; statistics of both runs compared", GEN_NOTE,
     assumptions=["one thread records; strategies and heuristics the log format or tool does not describe are left out",
                  "a history in which a pool was refused memory is checked against its log, not replayed"])

prop("C21", "The C interface does exactly what the C++ interface does",
     "Every function of the C and Fortran binding layer has the effect, the result and the error of the C++ call it stands for: the same allocators, parameters, "
     "sizes, contents, statistics and requests to the memory resource, for names given as C strings or as a length and text. Handles stand for one allocator until deleted, and strings "
     "returned through capsules are complete and freed once.",
     ["histories", "inputs", "configurations"],
     "for every history of calls over pools, wrappers and aliases, including refused calls, names of any length and failing memory resources",
     "The C tests call each function once with round numbers; swapped or dropped parameters and name lengths show up only in particular histories.",
     ["src/umpire/interface/c_fortran/wrapAllocator.cpp", "src/umpire/interface/c_fortran/wrapResourceManager.cpp", "src/umpire/interface/c_fortran/wrapUmpire.cpp", "src/umpire/interface/c_fortran/utilUmpire.cpp"],
     [("wrappers", "src/umpire/interface/c_fortran/wrapResourceManager.cpp"), ("capsules", "src/umpire/interface/c_fortran/utilUmpire.cpp")],
     [harness("capi", "h_capi", 12000, 150000)],
     TECH + "differential: every generated history runs through C functions and C++ classes on twin allocators whose resources hand out the same addresses up to a shift", GEN_NOTE,
     assumptions=["the Fortran modules themselves are not compiled here; the C functions they call are",
                  "camp is replaced by the stand-in headers under /verif/shim"])

prop("C31", "Memory of another platform is reached only through that platform's operations",
     "For an allocator whose memory resource belongs to another platform, whatever strategies stand in between, the host never reads or writes the "
     "memory itself: copy, memset, reallocate, move and prefetch run exactly the operation registered for the two platforms involved, with the addresses, byte count, "
     "device and (a)synchronous form that were asked for, and the data arrives. Without such an operation, or when it fails, the call is refused and all data, records, statistics and memory are as before. "
     "Advising and prefetching allocators apply their operation to every byte they hand out, and give the memory back if it fails.",
     ["histories", "configurations", "fault_sequences", "inputs"],
     "for every tree of strategies over resources of every platform, every set of registered operations, every history and every failing operation or resource",
     "The tests for other platforms need the hardware and are not built here; on the host nothing notices a pool that touches its memory or a wrong dispatch.",
     ["src/umpire/ResourceManager.cpp", "src/umpire/op/MemoryOperationRegistry.cpp", "src/umpire/op/GenericReallocateOperation.cpp", "src/umpire/op/MemoryOperation.cpp",
      S + "AllocationAdvisor.cpp", S + "AllocationPrefetcher.cpp", S + "AlignedAllocator.cpp", S + "QuickPool.cpp", S + "FixedPool.cpp"],
     [("dispatch by platforms", "src/umpire/op/MemoryOperationRegistry.cpp: find"), ("generic reallocation", "src/umpire/op/GenericReallocateOperation.cpp: transform, transform_async"),
      ("advice", S + "AllocationAdvisor.cpp: allocate")],
     [harness("platforms", "h_plat", 40000, 500000)],
     TECH + "stateful histories over simulated devices whose memory the host cannot access; the registered operations record their calls and work on a second mapping, which is the data oracle", GEN_NOTE,
     assumptions=["devices are simulated by resources and operations registered through Umpire's own registries", "no GPU, SYCL or OpenMP target runtime"])

prop("C32", "An allocator's nature is that of its memory resource",
     "The platform, traits and accessibility reported for an allocator are those of the memory resource at the root of its parents, however deep the stack; parent, strategy name "
     "and tracking flag are those it was made with, and none of this changes through allocations, releases, moves or refused operations. A strategy that cannot work on "
     "that resource is refused when it is made, and leaves neither a name nor memory behind.",
     ["configurations", "histories", "inputs"],
     "for every resource (platform, traits, accessibility) and every stack of strategies over it, at every point of every history",
     "Tests ask one or two allocators for their platform; traits of stacked strategies are never compared.",
     [S + "AllocationStrategy.cpp", "src/umpire/Allocator.cpp", "src/umpire/Umpire.cpp", "src/umpire/resource/MemoryResource.cpp", "src/umpire/ResourceManager.cpp", "src/umpire/ResourceManager.inl"],
     [("traits and platform", S + "*: getPlatform, getTraits"), ("accessibility", "src/umpire/Umpire.cpp: is_accessible"), ("resource names", "src/umpire/ResourceManager.cpp: makeResource")],
     [harness("nature", "h_plat", 30000, 400000, "nature")],
     TECH + "generated resources and stacks of strategies, compared with the drawn nature of the root after every operation", GEN_NOTE,
     assumptions=["devices are simulated by resources registered through Umpire's own registry"])

prop("C33", "NUMA policies place memory on the node asked for",
     "In a build with NUMA support, every page of memory obtained through a NUMA policy, directly or through allocators on top of it, is on the policy's node. Moving an allocation to a "
     "NUMA policy relocates all of its pages and no others, in place: pointer, contents, owner and statistics stay. When the memory cannot be placed, the pointer is an offset into an "
     "allocation or NUMA is unusable, an error is thrown, memory just obtained is given back and everything is as before. The host, device and allocatable nodes, the preferred "
     "node and the location of an address are those of the system; negative nodes are refused.",
     ["configurations", "histories", "fault_sequences"],
     "for every topology, stack of allocators and history of allocations, moves and reallocations, with placement failing at any point",
     "The repository has no NUMA tests; real machines have one fixed topology, and placing memory never fails there.",
     [S + "NumaPolicy.cpp", "src/umpire/util/numa.cpp", "src/umpire/op/NumaMoveOperation.cpp", "src/umpire/ResourceManager.cpp", "src/umpire/alloc/PosixMemalignAllocator.hpp"],
     [("placing", S + "NumaPolicy.cpp: allocate; src/umpire/util/numa.cpp: move_to_node"), ("moving in place", "src/umpire/ResourceManager.cpp: move"),
      ("page-aligned host memory", "src/umpire/alloc/PosixMemalignAllocator.hpp")],
     [harness("numa", "h_numa", 12000, 200000, config="numa")],
     TECH + "generated machines, stacks and histories over a simulated libnuma and mbind that keep a node per page and fail on demand", GEN_NOTE,
     assumptions=["libnuma, mbind and get_mempolicy are replaced by a simulation in the harness", "placement is per page: memory that shares its first or last page with a neighbour cannot be told apart"])

prop("C34", "Backtraces belong to the call that made the allocation or error",
     "In a build with backtraces and UMPIRE_BACKTRACE set to on, the backtrace reported for an address in a live allocation, and printed with the allocator's records, is the call chain of the user "
     "call that created the allocation (allocate, reallocate, move or registration), in order, named by symbol, and stays the same until the allocation ends, whatever else is done or refused. "
     "With the variable unset or off no allocation has one. The error thrown for a refused call carries the call chain of that call in either case. Unknown addresses have no "
     "backtrace: an error is thrown.",
     ["histories", "configurations", "fault_sequences"],
     "for every history of allocations, moves, reallocations, registrations and refused calls, every call depth and every setting",
     "The stable tests are built without backtraces; which call a record belongs to depends on the whole history.",
     ["src/umpire/util/backtrace.inl", "src/umpire/Umpire.cpp", "src/umpire/util/Macros.hpp", "src/umpire/util/error.hpp", "src/umpire/util/AllocationMap.cpp", "src/umpire/util/AllocationRecord.hpp",
      "src/umpire/ResourceManager.cpp", S + "mixins/Inspector.cpp"],
     [("recording", "src/umpire/ResourceManager.cpp: registerAllocation"), ("printing", "src/umpire/util/backtrace.inl: stringify"), ("asking", "src/umpire/Umpire.cpp: get_backtrace"),
      ("errors", "src/umpire/util/error.hpp")],
     [harness("trace", "h_trace", 4000, 60000, config="trace", confirm=1, tries=40)],
     TECH + "generated histories of calls made at generated call chains; the oracle is the harness's own stack walk at the call", GEN_NOTE,
     assumptions=["chains deeper than the 128 recorded frames are compared as far as they were recorded"])

NOT_APPLICABLE = []

PROPS = {p["id"]: {"level": p["level"], "assumptions": p["assumptions"], "parts": p["parts"]} for p in CAT}


def main():
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    cat = sorted(CAT, key=lambda p: p["id"])
    with open(os.path.join(root, "properties.jsonl"), "w") as f:
        for p in cat:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]},
            }) + "\n")
    man = {"version": 1, "setup_cmd": "python3 run.py --setup",
           "checks": [{"property": p["id"], "quick_cmd": "python3 run.py %s" % p["id"],
                       "thorough_cmd": "python3 run.py %s --tier thorough" % p["id"], "technique": p["technique"],
                       "level": p["level"], "level_note": p["note"]} for p in cat],
           "not_applicable": NOT_APPLICABLE}
    with open(os.path.join(root, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
