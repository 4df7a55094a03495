#!/usr/bin/env python3
# Writes /verif/MANIFEST.json.
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {}
def c(id, technique, note): T[id] = (technique, note)
COMMON = ' Trusts TLC, the table export (evaluated by TLC from the same modules on each run) and the recording drivers; the filter run in JS is only a selector, every deviating execution and a spread-out sample of the others is judged by TLC.'
ISA = ' Runs at every x86 implementation level this host can execute (others are skipped); those of other architectures are C21\'s.'
c('C01','TLA+ Encoder machine, model-checked with TLC; real encode/encodeTo replayed against its exported relation, traces judged by TLC','Exhaustive on the model for small line sizes; on the code, exhaustive over byte x position near line ends and sampled over lengths, alignments, line sizes.'+ISA+COMMON)
c('C02','TLA+ Transport monitor, implied by Encoder in TLC; recorded encoder outputs judged by the monitor','Monitor is independent of the encoder specification.'+ISA+COMMON)
c('C03','TLA+ composition Encoder/Stuff/Decoder checked by TLC; round trips through the real code judged by TLC','All pairs of implementation levels are exercised.'+ISA+COMMON)
c('C04','TLA+ Decoder automaton checked against a declarative definition by TLC; real decodes replayed and judged','All strings over the special alphabet up to the model bound; on the code, tokens at every offset/alignment and all 5-byte tails.'+ISA+COMMON)
c('C05','TLA+ Stream machine (chunk invariance model-checked); recorded chunked executions judged by TLC state by state','Every 2-cut of sampled streams, random multi-cuts, all start states.'+ISA+COMMON)
c('C06','TLA+ end-detection specification (automaton = declarative definition, by TLC); terminators at all offsets replayed and judged','As C05.'+ISA+COMMON)
c('C07','TLA+ Api specification of the calling convention; generated call forms and recorded results judged by TLC','All documented positions of state/output, arbitrary state strings up to the bound.'+COMMON)
c('C08','TLA+ Crc specification (bitwise = table = piecewise, model-checked); recorded CRCs judged by TLC','All lengths to the bound at all alignments, basis vectors, random long data.'+ISA+COMMON)
c('C09','TLA+ specification of GF(2)[x]/P arithmetic (ring laws by TLC exhaustively in small fields); recorded results judged by TLC','Random and structured operands, exponents over the whole safe-integer range.'+COMMON)
c('C10','TLA+ Sizes specification checked against the Encoder machine by TLC; recorded size functions and gates judged by TLC','Includes lengths beyond 2 GB for the size functions and one real 2 GB+ buffer.'+COMMON)
c('C11','TLA+ Footprint specification of permitted accesses; recorded accesses of the real kernels, guard-page and canary executions judged by TLC','Every load and store the compiler emits in the addon is recorded (memtrace build) and judged against the permitted footprint; uninstrumented builds run against inaccessible and write-protected pages and canaries, which also cover inline assembly.'+ISA)
c('C12','TLA+ Article specification; recorded post/multi_post articles judged byte for byte by TLC','Names over the whole latin1/UTF-8/binary encodings, all data forms.'+COMMON)
c('C13','TLA+ MultiPost machine (invariants model-checked); all its behaviours to a depth replayed into the code, random histories judged by TLC','Bounded depth for exhaustive behaviours.'+COMMON)
c('C14','TLA+ composition of Article and Parser (no warnings, identity; model-checked); real post -> from_post executions judged by TLC','Sampled files, splits, names, line sizes.'+COMMON)
c('C15','TLA+ Parser specification (total; model-checked); real from_post on generated, mutated and arbitrary Buffers judged by TLC','Sampled, structure-aware.'+COMMON)
c('C16','TLA+ Parser warning specification; real from_post on a grid of inconsistent articles judged by TLC','Every warning kind in combination with others; numeric spellings the documentation leaves open are judged as "may".'+COMMON)
c('C17','TLA+ Gate decision tables (total; model-checked); all argument-kind tuples executed and judged by TLC','Exhaustive over the listed argument kinds.'+COMMON)
c('C18','TLA+ Workers specification (all interleavings of loading, calling and terminating, by TLC; three defective variants refuted); real threads held before chosen shared accesses and judged by TLC','Shared-memory accesses of the addon are enumerated by a recorder and a thread is held at each of them while another calls; thread churn and context runs beyond that are sampled.')
c('C19','TLA+ Dispatch specification over CPU feature vectors and OS state; simulated processors executing the real module, results judged by TLC','The addon is rewritten so that CPUID/XGETBV trap and every instruction needing an extension traps on first execution: the executed extensions are compared with the offered ones. Build variants (portable, native, -march, no 256-bit, no crcutil) are compared by their results.')
c('C20','TLA+ Ledger specification (all histories of taking, handing over, dropping, collecting and failing; five defective variants refuted by TLC); measured rounds of real calls and calls starved of memory judged by TLC','Memory in use, heap and external memory are measured after collections between equal rounds; a leak smaller than 16 bytes per three calls of a kind could go unnoticed. Starvation is by an address-space limit, at single large allocations.')
c('C21','TLA+ Encoder, Decoder, Stream and Crc machines as for C01-C09, and an Arch specification of systems and what may run on them (model-checked, four defective variants refuted); the sources compiled for seven other architectures execute under emulation, traces judged by TLC','The addon\'s C++ sources, src/yencode.cc included, are compiled with clang for aarch64, arm, riscv64, s390x, powerpc and i386 against a small stand-in for V8 and run under qemu-user; index.js and the drivers are those of the other checks. Compiler and emulator stand for the real compilers and processors. Not covered: big-endian ARM, operating systems other than Linux, sources that the installed clang cannot compile (left out, with a note in the evidence). Every output has canaries or an inaccessible page after it.'+COMMON)
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
import sys; sys.path.insert(0, os.path.join(V, 'harness')); import props as P
checks, na = [], []
for p in props:
    if p in P.CHECKS: checks.append(dict(property=p, quick_cmd='./check.py ' + p, thorough_cmd='./check.py %s --tier thorough' % p, technique=T[p][0], level='model_checking', level_note=T[p][1]))
    else: na.append(dict(property=p, reason='check under construction'))
json.dump(dict(version=1, setup_cmd='./check.py --setup', checks=checks, not_applicable=na,
  notes='Specification language: TLA+ with TLC. No hooks in /repo; the checks compile scratch copies of /repo with -include harness/simcpu.h (CPUID interposition).'), open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
