#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
T="deterministic simulation with fault injection: seeded schedules, channel/crash/clock/entropy faults, real library in one simulated process"
N={
"C01":"Every operation's result under preemption at heap operations, locks, trace points and awaits is compared with the same operation alone in a fresh process. Races inside code between two scheduling points (no allocation, lock, trace or clock access) are not interleaved.",
"C02":"Messages are photographed around every step, refused, abandoned at each await, retried; compared exactly. Sampled, not exhaustive.",
"C03":"Every delivered byte string is judged by an independent strict XML/JSON decoder driven by a schema snapshot; trusts that decoder and the snapshot.",
"C04":"Crash, abort, stack overflow (2 MiB stacks), hang (CPU limit) and memory growth are observed on a real child process; sampled payloads.",
"C05":"All schema fields and codes are walked by the seed; each hop's output is decoded independently. Numbers up to 15 significant digits.",
"C06":"Verdicts of validation and parsing compared over all source forms for intact and damaged payloads.",
"C07":"Timestamps are compared with the simulated clock's own readings during the step; results are compared across clocks.",
"C08":"Every shipped scenario listed in its index under random and degenerate entropy; sampled seeds.",
"C09":"The recorded changes are replayed against initial data, across overwrites, failures, crashes and redelivery.",
"C10":"Crash instants are scheduling points; what survives is what the simulated disk kept; compared with the uninterrupted run.",
"C11":"Peeked, recorded and actual types compared for every accepted payload, plus routing of every undamaged message.",
"C12":"Context and snapshot compared after every step; engine conditions and mappings check the same from inside workflows.",
"C13":"The real tools run under a libc shim that decides every file operation's fate; process kill, I/O errors, full disk and power loss at any operation.",
"C14":"Findings at every simulated node are compared with a reference checker (own matcher, rules snapshot taken from the sources when the check was written); sampled damage. Presence rules are not covered: a missing mandatory field is refused by parsing (C03).",
"C18":"Every XML message sent is examined as bytes by an independent strict reader (shape, order, characters) and compared byte by byte with every other message of equal content sent in the run. Element order is that of the schema snapshot.",
"C19":"Every field, code and rule of the stand-alone definitions and headers is walked by the seed over relays with crashes and concurrent validations; compared with a reference codec and checker driven by a snapshot taken from the sources when the check was written.",
"C17":"300 rounds of varied messages in one simulated process; bytes held after warm-up against bytes held at the end, and scheduling points per round. Growth below 2 KiB over 200 rounds is not seen.",
}
import sys
claimed=[l for l in open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"claimed.txt")).read().split()]
NA={
"C15":"Pure lookups in a constant 25-row table; nothing to schedule and no fault to inject (finite enumeration would decide it, another technique).",
"C16":"Pure function of one message: whether a field rule is enforced depends on no schedule, fault or history.",
}
m={"version":1,"setup_cmd":"./run.sh build",
"checks":[{"property":p,"quick_cmd":f"./run.sh {p}","thorough_cmd":f"./run.sh {p} thorough","technique":T if p!="C13" else "deterministic simulation with fault injection: seeded crash, torn-write and I/O-error schedules over the tools' file operations","level":"exploration","level_note":N[p]} for p in claimed],
"not_applicable":[{"property":p,"reason":r} for p,r in NA.items() if p not in claimed],
"notes":"No hook in /repo: the simulator interposes libc (futex, clocks, entropy), the global allocator and the async executor. See DESIGN.md."}
json.dump(m,open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"MANIFEST.json"),"w"),indent=1)
