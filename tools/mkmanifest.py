import json
T="deterministic simulation with fault injection: seeded search over "
checks=[
("C01",T+"destination write faults, refill points and retries against a layout model",
 "Samples values, styles and failing/short/panicking write calls; the expected text comes from an independent model of the layout. Trusts that model and the sampling."),
("C02",T+"storage capacities and refusing or panicking insertions against a reference parser",
 "Samples payloads, storage kinds and the insertion at which storage fails; the expected node list comes from an independent reference parser. Trusts that parser and the sampling."),
("C03",T+"consumer failures, panics and damaged payloads; event history checked against a reference parser",
 "Samples payloads, configurations and the event at which the consumer fails; the full event history and the ownership of every item are checked. Trusts the reference parser and the sampling."),
("C04",T+"storage and transport faults on payloads, every reading entry point against a reference grammar",
 "Samples payloads and sequences of faults; verdict, content, reason and position at every entry point are compared with a reference grammar and with one another. Trusts the reference grammar and the sampling."),
("C05",T+"histories of edits, checkpoints, torn writes, crashes and restarts against a model document",
 "Samples histories; each recovered document is compared with the model at the time of the checkpoint, and every partial checkpoint must be refused. Trusts the model and the sampling."),
("C06",T+"thread interleavings and nested, cancelled and failing operations, each compared with its outcome alone",
 "Samples schedules of real threads run one at a time, switched at callbacks, memory requests, steps and between any two basic blocks of the library; within a basic block, and within functions of the standard library that are not generic, a task runs uninterrupted, and memory is sequentially consistent. Trusts the scheduler and the sampling."),
("C07",T+"failing allocations under a simulated heap",
 "Samples operations and the allocations that fail; no-allocation claims are decided by denying every request. Trusts the allocator stand-in and the sampling."),
("C08",T+"duplicated, reordered and re-encoded deliveries and crashes of keyed tables against a plain-text model",
 "Samples delivery histories, encodings and hashers; tables are compared with tables keyed by plain text. Trusts the reference decoder and the sampling."),
("C09",T+"input damage and interleaved look-ahead and reads of several token readers against a reference lexer",
 "Samples inputs and step orders; tokens, positions and progress are compared with a reference lexer. After the first error only well-formedness, progress and position are decided. Trusts the lexer and the sampling."),
("C10",T+"schedules of several readers of one document against a position model",
 "Samples documents and schedules of step, read, skip, copy and abandon; each reader is compared with a position model. Trusts the model and the sampling."),
("C11",T+"interruption, copying, crash and resumption of text streams against a reference codec",
 "Samples strings and interruption points; the total received is compared with a reference codec. Trusts the codec and the sampling."),
("C12",T+"hostile payload shapes, damage, limits and operations under enforced stack and heap budgets",
 "Samples payload shapes, limits and operations; heap use is cut off at the budget by the allocator, stack use is measured in pages after each operation. Budgets have an order of magnitude of headroom, so only growth of the wrong kind is decided, not constants."),
("C13",T+"hostile payload shapes, damage, limits, failing consumers and destinations under step budgets of a simulated clock",
 "Samples payload shapes, limits and operations; one step is one basic block of the library or of generic library code used by it. The budget per byte is four times the most ever measured, so only growth of the wrong kind is decided, not constants. Moving, filling and comparing memory takes steps in proportion to the bytes; other functions of the standard library that are not generic count as one step, and only a time limit per run bounds them."),
]
P={json.loads(l)["id"] for l in open('/verif/properties.jsonl')}
na={
"N01":"A conversion of a number literal is a pure function of the literal: no schedule, clock, fault, interleaving or history can influence it, so there is nothing to simulate. (The conversions met along C05's histories are compared with a model there.)",
"N02":"Presets and setters are const functions of their arguments; nothing nondeterministic or faulty takes part.",
"N03":"Printing an error is a pure function of the error (its destination's faults are covered for all writers by C01 and C11); what the message says is not a matter of schedules or faults.",
"N04":"Type accessors are pure functions of the value; the sequences of edits and lookups in which they are used are checked, with every accessor, as part of C05.",
"N05":"Which feature combinations compile is decided at build time, before anything runs that could be simulated.",
}
m={"version":1,"setup_cmd":"./build.sh",
"checks":[{"property":i,"quick_cmd":f"./check.sh {i}","thorough_cmd":f"VERIF_TIER=thorough ./check.sh {i}","evidence_file":f"evidence/{i}.json","technique":t,"level":"exploration","level_note":n} for i,t,n in checks],
"not_applicable":[{"property":k,"reason":v} for k,v in na.items()],
"notes":"No hooks in /repo: consumer, storage, destination, hasher and allocator callbacks are existing seams. ./replay.sh FILE runs a replay file again. See DESIGN.md."}
assert {c[0] for c in checks}|set(na)==P, P
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
