#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json
props=[json.loads(l) for l in open('properties.jsonl')]
RACE="deterministic simulation: seeded scheduler with a switch point before every statement; race detector as happens-before oracle"
FAULT="deterministic simulation: the real program over a simulated kernel with seeded fault injection"
HIST="deterministic simulation: seeded histories of operations by interleaved tasks over the real library, judged by a model"
RAND="deterministic simulation: the seed decides every random choice of the Go runtime (map seeds and iteration order)"
LIB="deterministic simulation: the real library over a simulated kernel with seeded fault injection"
CLAIMED={
 'P01':(RACE,'Seeded search over statement-level interleavings of concurrent readers; every result is compared with the one obtained alone.'),
 'P02':(RACE,'Seeded search over statement-level interleavings of unrelated work, plus fixed probes that detect state left behind in the process.'),
 'P03':(RACE,'Seeded search over statement-level interleavings of decoders that share a specification, functions, scope and source table.'),
 'P04':(HIST,'Seeded search over chains of partial, full and attribute-only reads by interleaved consumers over native, JSON, packed, merged, expanded and transformed bodies; each delivery is compared with the items known by construction.'),
 'P05':(RAND,'Seeded search over the hash seed and iteration offsets of every map in the process, for generated configurations, every operation of the library and the commands; results under several seeds are compared with each other.'),
 'P06':(FAULT,'Seeded search over failures, short writes, kills and power loss at every system call of the rewrite, with a concurrent reader; the content is examined at every step.'),
 'P07':(FAULT,'Seeded search over failures and short transfers at every system call; exit status, output and files are compared with what the inputs require.'),
 'P08':(FAULT,'Seeded search over failures and short transfers at every system call; the result is compared with an independent model of the specification language.'),
 'P09':(FAULT,'Seeded search over failures in the runner and its child processes, child deaths and misbehaving decoders, over generated suites whose verdict is known.'),
 'P10':(LIB,'Seeded search over open and read failures, short reads, vanished and changed files between the loads of one registry; every listing and load is compared with what was really read.'),
 'P11':(LIB,'Seeded search over the byte position, extent and persistence of a failing output stream under every output function.'),
 'P12':(LIB,'Seeded search over unreadable, vanished, cut-off and broken included files and failing transformers, at every nesting level and in every reading order; content and errors are compared with a model.'),
 'P13':(LIB,'Seeded search over the damage that storage does to a file (torn, lost, zeroed, stale, duplicated and reordered blocks, bit errors); loading, merging, decoding, evaluating, formatting and reporting must end, stay inside the file, report what is certainly broken and leave the neighbours alone.'),
 'P17':(HIST,'Seeded search over the ordinal and kind of failing calls of functions, function contexts, transform functions and walkers, by interleaved callers; every other part of the result is compared with the undisturbed one, and everything once the failures end.'),
 'P15':(HIST,'Seeded search over edit histories of several editors, their saves under file faults, crashes, power cuts and reloads; every saved file is parsed and compared with a reference document that keeps untouched items as text.'),
 'P16':(HIST,'Seeded search over configurations with marked references and over the order, grouping, loss and restart of variable delivery; readers that are given only the listed references must get what readers with every variable get.'),
 'P18':(HIST,'Seeded search over configurations, values and the order, stages and grouping in which values arrive at several readers; each earlier result is compared with the later ones and with the result when everything is known.'),
 'P14':(LIB,'Seeded search over hops, splits, joins and damage of packed configuration in transit; what the receiver reads is compared with the native configuration of the sender.'),
}
N={
 'N01':'The grammar is a pure function of one text: there is no schedule, time, I/O or second party for a simulator to control; deciding it is input enumeration against a grammar.',
 'N02':'Equivalence of two pure parsers on one input: no schedule, time, I/O or history is involved.',
 'N03':'Idempotence of a pure text function: no schedule, time, I/O or history is involved.',
 'N04':'The value of a literal is a pure function of its text.',
 'N05':'Ranges are a pure function of one text.',
 'N06':'Type conformance of one decode is a pure function of specification, body and variables.',
 'N07':'A pure round trip between two functions of one value.',
}
checks=[];na=[]
for p in props:
    i=p['id']
    if i in CLAIMED:
        t,n=CLAIMED[i]
        checks.append(dict(property=i,quick_cmd=f'bash check.sh {i}',thorough_cmd=f'bash check.sh {i}',evidence_file=f'evidence/{i}.json',technique=t,level='exploration',level_note=n))
    else:
        na.append(dict(property=i,reason=N.get(i,'Decidable by simulation as DESIGN.md describes; the check is not built yet.')))
m=dict(version=1,setup_cmd='bash tools/build.sh .build/setup',
 hooks=dict(guard='none (no change to /repo is needed)',enable='tools/build.sh computes a build overlay from the working tree and builds with go build -overlay',source_commits=[]),
 checks=checks,not_applicable=na,
 notes='check.sh PROPERTY builds the simulator around the working tree of /repo and searches; check.sh replay FILE repeats one recorded run. Repairs made in /repo are listed in known-findings.txt.')
json.dump(m,open('MANIFEST.json','w'),indent=1)
print(len(checks),'checks')
