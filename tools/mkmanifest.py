#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CH = {
 'C01': ('differential oracle over executions of the real program', 'Random well-formed documents and options through the real main(); output read back by a strict reference parser and compared as values. Sampling: no proof for inputs not generated.'),
 'C02': ('layout oracle over executions of the real program', 'Output re-rendered from its own tokens by the layout rules and compared byte for byte, and fed back. Sampling.'),
 'C03': ('order oracle over executions of the real program', 'Order of the written keys checked at every depth, sorted and kept. Sampling.'),
 'C04': ('differential oracle (reference recogniser), bounded-exhaustive and random executions', 'Every token sequence up to 5 (6) tokens over 9 tokens, and random corruptions; the recogniser abstains on unspecified lenient spellings.'),
 'C05': ('differential oracle over executions, warnings checked as an event log', 'Tolerated errors are planted at known positions; warnings compared one by one in order.'),
 'C06': ('oracle over diagnostics of executions with planted errors', 'One error at a known position in a random document; line, column, excerpt and caret compared exactly.'),
 'C07': ('AddressSanitizer, UndefinedBehaviorSanitizer, valgrind memcheck, libFuzzer', 'Hostile and random inputs on the instrumented program; absence of errors only on what was executed.'),
 'C08': ('exhaustive executions over code units, oracle on the output', 'All 65536 code units in keys and values with and without --ascii, sampled (thorough: all) surrogate pairs, random sequences.'),
 'C09': ('differential oracle over executions with equivalent sources; model of the arguments', 'Same document through file, pipe in chunks and arguments; random command lines against a model.'),
 'C10': ('monitor inside the spawned command, directory snapshots, fault injection', 'A recorder run as the diff command logs what it sees; temporary directory compared before and after; commands that fail, are killed or cannot run; concurrent instances.'),
 'C11': ('differential oracle (reference matcher) over the cells of the real viewer, and over its matcher', 'Random documents and patterns with every combination of flags; the lines the viewer highlights compared with those a reference matcher chooses. Sampling.'),
 'C12': ('model of the rendering compared with the cells of the real viewer at every wait for a key', 'Random documents, sizes, key and resize histories on a pseudo terminal; every cell of text compared with the window of a model. Sampling.'),
 'C13': ('model of the navigation followed online at every wait for a key', 'Random documents, sizes and key histories; selection, collapse state and window after every key compared with a model. Sampling.'),
 'C14': ('model of the search followed online at every wait for a key', 'Random documents, patterns, collapse states and repetitions; selection, expansion and message after every search and n compared with a model. Sampling.'),
 'C15': ('AddressSanitizer, UndefinedBehaviorSanitizer, valgrind memcheck and monitors of waits, size, status and terminal modes under random keys, resizes and signals', 'Hostile sessions of both viewers on a pseudo terminal, signals at chosen points; absence of errors only on what was executed.'),
 'C16': ('invariant monitor over the result of every comparison', 'Operation and counterpart of every node of pairs of documents checked against the stated invariants; small documents sampled (thorough: all pairs), random and mutated ones.'),
 'C17': ('model of both halves compared with the cells of the real diff view at every wait for a key', 'Pairs of random documents, keys and sizes on a pseudo terminal; rows, markers, selection and folding of both halves compared with a model fed by the pairing of the comparison itself. Sampling.'),
 'C18': ('model of the tree compared with every accessor; AddressSanitizer; allocation balance monitor', 'Random documents; every node, its links, lookups and removals compared with a model, allocations counted around the life of a parser.'),
 'C19': ('reference model compared after every operation, bounded-exhaustive and random histories; AddressSanitizer', 'All sequences of 6 (7) operations for small capacities, random longer ones for larger capacities and the line-aware variant.'),
 'C20': ('differential oracle (reference implementation) on observed values; metric axioms', 'All pairs of short texts over small alphabets, random longer ones.'),
}
def main():
    m = {'version': 1, 'setup_cmd': 'python3 lib/build.py', 'checks': [], 'not_applicable': []}
    props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
    for p in props:
        if p not in CH:
            m['not_applicable'].append({'property': p, 'reason': 'check under construction'}); continue
        t, note = CH[p][:2]
        cmd = 'python3 checks/%s.py' % p.lower()
        m['checks'].append({'property': p, 'quick_cmd': cmd, 'thorough_cmd': cmd, 'technique': t, 'level': 'exploration', 'level_note': note, 'evidence_file': 'evidence/%s.json' % p})
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f: json.dump(m, f, indent=1); f.write('\n')
main()
