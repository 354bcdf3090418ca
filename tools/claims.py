CHECKS = {
    "C01": ("seeded worker schedules on a simulated OpenMP runtime", "Every per-ray operation on generated models under random, priority, round-robin and permuted schedules with reduced grants and stalls, "
            "compared bit for bit with one worker; vector-clock race detection on the instrumented extension. Sampled, not exhaustive."),
    "C02": ("seeded worker schedules on a simulated OpenMP runtime, reference sum", "sumAmplitude/huygensPSF against an independently accumulated sum over eligible rays for seeded sizes, limits, grants and interleavings."),
    "C04": ("simulated accelerator with separate memory and seeded histories", "Histories of operations, host reads and writes, object deaths and address reuse on a simulated discrete accelerator, compared with the CPU build step by step."),
    "C05": ("caller threads under a seeded scheduler switching at bytecode, line and call events", "Two to four caller threads share models and run seeded programs; every switch is the simulator's decision; each thread's answers and the shared objects "
            "are compared with the programs run alone. Switch points are interpreter events (the bindings never release the GIL)."),
    "C06": ("seeded derivation histories with injected exceptions against an executable reference model", "Histories of with*-derivations over live systems, with interrupts at seeded instants; every live system and its traces re-checked, the new one compared with a model computed from the specification."),
    "C07": ("interrupts and allocation failures injected at seeded instants of every operation", "Asynchronous exceptions at bytecode/line/call events, failing allocations in numpy and in batoid's C++ code, errors of the callee; snapshots around the aborted call and the retried call's answer compared with an undisturbed process."),
    "C08": ("simulated allocator: garbage, guards, poison, quarantine, reuse, collections at chosen instants", "Histories on hostile memory against the same history on ordinary memory in another process; every access of the instrumented extension checked against live blocks."),
    "C12": ("simulated OpenMP runtime recording every request and grant", "Limits changed between and during operations, reduced grants, stalls; requested team sizes checked at every region, results compared with one worker."),
    "C14": ("seeded operation histories against fresh processes", "Every query after a seeded history (including mutated results) is compared with the same query asked first in a freshly forked process."),
    "C15": ("seeded histories of bundles with injected aborts against a one-ray-at-a-time reference model", "Each step of a history over several bundles compared, in global coordinates, with an independent scalar model; monotonicity invariants checked at each step."),
    "C03": ("simulated work distribution with message faults and worker crashes", "Random chunkings of a bundle traced by separate interpreter processes (other hash seeds and thread limits) over a lossy, duplicating, reordering, corrupting queue with crashes and retries; each reply compared bit for bit with the whole bundle traced at once."),
    "C10": ("seeded histories with hostile caller buffers and reuse at chosen instants", "Every constructor and call given arrays of seeded dtype, layout and writability; buffers snapshotted, scribbled over at seeded instants of later histories, and answers compared with those from equal plain arrays."),
    "C09": ("simulated restarts and byte store with torn streams, failing I/O and interrupted restores", "Histories of saves, restores, copies and migrations to other interpreter processes (hash seeds, thread limits), with truncated streams and buffers, failing and short reads and writes, interrupts and allocation failures; restored objects compared with originals, with rebuilt ones and by probing operations; writes to live bundles and store buffers must show nowhere else."),
    "C11": ("simulated disk below libc with injected I/O faults and concurrent file changes", "Histories of loads over user and packaged files that are replaced, removed and edited between and during loads, with failing, short and interrupted calls by rule at the libc boundary, permuted listings and interrupts; each outcome compared with what the file present describes, computed from memory."),
    "C13": ("seeded interleavings of samplers over simulated entropy and clocks, replayed source by source in other processes", "Histories of several users sampling, drawing and computing with shared and own generators, seeds and none, merged or as threads under a seeded scheduler, with interrupts, clock jumps and stalled clocks; every seed's and generator's operations replayed alone in processes with other hash seeds and global states; global states watched; unseeded samples located in the region and compared across processes."),
    "C16": ("seeded histories repeated with injected aborts, live blocks, objects and references counted between", "Histories with failing allocations, interrupts and refusals, and chains of derived or copied objects, repeated with slightly other numbers; "
            "what the simulated allocators, the simulated device, the collector and batoid's modules hold is counted after each repetition; what keeps growing over 200 is a violation."),
}
