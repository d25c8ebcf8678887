"""Writes MANIFEST.json from the check modules present."""
import json
import os
import re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
TECH = {
 'C01': ('runtime monitoring: round-trip oracle over all packing/unpacking routes',
         'Held on the executions run (generated inputs and settings, boundary sizes systematically, 1..8 Blosc threads). Trusts the Blosc library.'),
 'C02': ('runtime monitoring: array round-trip oracle with guard pages around the source memory',
         'Held on generated dtypes, shapes and layouts; guard pages see any read past the array on either side that reaches the page. Trusts NumPy views and Blosc.'),
 'C03': ('runtime monitoring: independent format parser as oracle over packed output',
         'Every output byte range of every generated file judged by a parser written from the README; chunk settings judged against direct calls of Blosc with one thread.'),
 'C04': ('runtime monitoring: independent format writer and golden corpus drive the readers',
         'Held on generated conforming files and on files stored from the pinned release.'),
 'C05': ('runtime monitoring with fault injection: damaged chunks must be reported',
         'Every byte position of the chunk area of small files, all checksums and routes; multi-byte damage sampled. A real checksum collision is recognised by the reference parser and not counted.'),
 'C06': ('runtime monitoring with fault injection: metadata oracle and damaged metadata sections',
         'Generated JSON values and settings; every byte position of the metadata payload and digest of small files.'),
 'C07': ('runtime monitoring with fault injection: every truncation and bad header must be refused',
         'Every cut of the generated files on every route; headers at and beyond each documented limit.'),
 'C08': ('runtime monitoring: append histories against an executable model and format parser',
         'Histories of generated appends checked after every step against concatenation and the format parser.'),
 'C09': ('runtime monitoring: byte-identity monitor around refused operations',
         'All refusal reasons at generated points of histories; file image compared before and after, through the API and blpk.'),
 'C10': ('runtime monitoring: metadata-update histories against an executable model',
         'Histories of updates and appends; every byte outside the section monitored after each step.'),
 'C11': ('fault injection at every write and chunk, recorded write-trace checker',
         'Every crash point between file operations of each generated pack run, plus real process kills at chunk boundaries and injected I/O errors. Assumes writes reach the file in the order they are issued.'),
 'C12': ('fault injection at every (torn) write of an append, image checker',
         'Every write of each generated append, whole and torn; chunks with checksum. Assumes writes reach the file in the order they are issued.'),
 'C13': ('runtime monitoring: NumPy allocator handler with guard pages and consistency oracle over hostile array files',
         'Overruns are seen when they pass the end of the page-aligned allocation (within 16 bytes by canary); uninitialised memory is seen by a fill pattern and by the consistency oracle.'),
 'C14': ('runtime monitoring: interpreter audit-hook monitor over crafted inputs',
         'Observes audit events of the interpreter (open, exec, import, process, socket, unlink ...) during reads of generated and crafted files.'),
 'C15': ('runtime monitoring: command-line histories against the reference parser and library',
         'Generated command sequences run through the real entry point (in forked interpreters and as real blpk processes).'),
 'C16': ('runtime monitoring with fault injection: failing commands must fail loudly and leave files alone',
         'All listed failure causes crossed with options; exit status, output and file bytes monitored.'),
 'C17': ('runtime monitoring: inspection output against the reference parser',
         'Info output and readers compared with an independent parse over histories of files.'),
 'C18': ('runtime monitoring under stress scheduling: concurrent outcomes equal to solitary outcomes',
         'Up to 8 threads with forced switching and delays at the file boundary; schedules are sampled, not enumerated.'),
 'C19': ('runtime monitoring: argument snapshots and history/fresh-process differential oracle',
         'Sequences of operations with shared arguments compared with forked pristine interpreters.'),
 'C20': ('runtime monitoring: allocation and read-size monitors while file size grows',
         'Python allocations by tracemalloc and sizes of all reads at the file boundary; memory inside the Blosc library is not counted.'),
 'C21': ('runtime monitoring: outcome equality across log levels with captured output',
         'Generated operations, successful and failing, at three levels.'),
 'C22': ('runtime monitoring: arithmetic oracle over generated and boundary sizes',
         'Boundary values systematically, the rest sampled.'),
 'C23': ('runtime monitoring: independent codec oracle over generated headers and random bytes',
         'Field extremes systematically, random combinations and random 32-byte strings sampled.'),
 'C24': ('runtime monitoring: descriptor and directory-snapshot monitors with fault injection',
         'Descriptors and directory trees compared around each successful and failing operation, also while the exception is held.'),
 'C25': ('runtime monitoring: recorded calls of sources and sinks judged by a trace specification, with injected failures',
         'Every call of the protocol recorded for generated runs; failures injected at generated calls of every kind.'),
 'C26': ('runtime monitoring: refusal oracle over invalid values for every setting and entry point',
         'Generated values outside each documented range or type, one per call; values a lossless conversion makes valid are not judged.'),
 'C27': ('runtime monitoring: resident-memory and processor-time monitors over readers of files with large claims',
         'Peak memory growth (below 64 MB) and processor time (below 6 s) of every reader in a forked process; generated claims in every field.'),
 'C28': ('runtime monitoring: recording file objects with the least methods and real pipes, sockets, archives; outcome compared with plain files',
         'Generated kinds of objects, read sizes, positions, surroundings and early ends for each operation.'),
 'C29': ('runtime monitoring: differential observation of processes that differ only in their surroundings',
         'The same generated operations and commands in a plain process and under generated locales, options, umasks, streams and program states.'),
 'C30': ('runtime monitoring with fault injection: recorded writes of metadata updates cut at every write and byte, errors at every call',
         'Crash images of every update compared byte by byte outside the section and given to every reader.'),
 'C31': ('runtime monitoring: counters of bytes, chunks, executed lines and processor time',
         'Generated operations on files much larger than what they concern; growth measured between n and 4n chunks.'),
 'C32': ('runtime monitoring: snapshots of the directory and readers at the other end of pipes',
         'Operations and commands on generated names, links, pipes, system files, changing inputs and outputs that cannot be written.'),
 'C33': ('runtime monitoring: lines and messages understood and compared with the input, the image and the request',
         'Every line of generated operations, commands and errors that is understood; what is worded in another way is not judged.'),
 'C34': ('runtime monitoring with fault injection: exceptions raised at chosen statements by sys.monitoring',
         'Generated operations and commands interrupted at statements of every part of the package in turn; what comes out and what is left is compared.'),
}
LEVEL = {'C34': 'fault_enumeration', 'C30': 'fault_enumeration', 'C11': 'fault_enumeration', 'C12': 'fault_enumeration'}
have = sorted(f[:-3].upper() for f in os.listdir(os.path.join(V, 'mon/checks'))
              if re.match(r'c\d\d\.py$', f))
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
m = {'version': 1,
     'setup_cmd': 'sh setup.sh',
     'checks': [], 'not_applicable': [],
     'notes': 'check.py dispatches; see DESIGN.md. No hooks in /repo: all monitors sit at '
              'file objects, the allocator, audit events and process boundaries. Genuine '
              'defects repaired or recorded: known_findings.txt.'}
for p in props:
    if p in have:
        t, n = TECH[p]
        m['checks'].append({'property': p, 'quick_cmd': '%s check.py %s --tier quick' % (PY, p),
                            'thorough_cmd': '%s check.py %s --tier thorough' % (PY, p),
                            'evidence_file': 'evidence/%s.json' % p,
                            'technique': t, 'level': LEVEL.get(p, 'exploration'),
                            'level_note': n})
    else:
        m['not_applicable'].append({'property': p, 'reason': 'check not built yet'})
with open(os.path.join(V, 'MANIFEST.json'), 'w') as fp:
    json.dump(m, fp, indent=1)
    fp.write('\n')
print(len(m['checks']), 'checks')
