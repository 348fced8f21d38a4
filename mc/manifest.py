#!/usr/bin/env python3
"""Writes MANIFEST.json from the harnesses that exist."""
import glob, json, os
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
EX = 'bounded exhaustive exploration of the real code against a reference model'
CASE = ('Every case of the stated finite space is executed on the real code and compared with an independent reference; '
        'nothing is sampled. Assurance ends at the bounds in DESIGN.md and rests on the reference model, ICU and the compiler. ')
C = {
 'P01': ('exploration', 'exhaustive enumeration of grammars and phrases; real search compared with an independent derivation enumerator', CASE + 'Grammars of up to 4 sections (16 on ladders), phrases of up to 3 (9) tokens.'),
 'P02': ('exploration', 'exhaustive enumeration of grammars, scores and candidate phrases; best match compared with the maximum over all derivations', CASE + 'Scores are exact binary fractions in the product space.'),
 'P03': ('exploration', 'exhaustive enumeration of grammars and addresses; listing compared with all derivations', CASE),
 'P04': ('exploration', 'exhaustive enumeration of grammar texts up to a number of lines over a line alphabet, against a line parser', CASE),
 'P05': ('exploration', 'exhaustive enumeration of class sets per token, against the ordered product', CASE),
 'P06': ('model_checking', 'explicit-state search over edit and query histories of a lexicon, each state compared with a freshly built lexicon and a list model', 'All histories up to the stated depth over a small set of entries that share words and prefixes; every transition runs the real code.'),
 'P07': ('exploration', 'exhaustive enumeration of lexicon texts up to a number of lines over a line alphabet, against a line parser', CASE),
 'P08': ('exploration', 'exhaustive enumeration of save and load histories, truncation points and format versions of compiled lexicons', CASE),
 'P09': ('exploration', 'exhaustive enumeration of addresses over character alphabets, against a reference tokenizer and a conservation oracle', CASE),
 'P10': ('exploration', 'exhaustive enumeration of lexicon word sets and addresses, against a longest-match reference', CASE),
 'P11': ('exploration', 'exhaustive enumeration of token texts over character alphabets, against a reference classifier', CASE),
 'P12': ('exploration', 'exhaustive enumeration of attachable entries and words, against a reference splitter', CASE),
 'P13': ('exploration', 'exhaustive enumeration of filters, filter edit histories and addresses', CASE),
 'P14': ('exploration', 'exhaustive enumeration of phrases with multi-word tokens, against the set of all choices', CASE),
 'P15': ('exploration', 'exhaustive enumeration of field assignments, standard words and addresses through both C interfaces, against a record model', CASE),
 'P16': ('model_checking', 'explicit-state search over call histories of the real per-query cache under a stand-in server, with a reference cache and release accounting', 'The real C and C++ code runs under AddressSanitizer against a stand-in for the database server runtime (memory contexts, hash table, function manager, text), which is trusted; histories up to the stated depth.'),
 'P17': ('fault_enumeration', 'enumeration of every allocation failure point of every interface call (C++, C library, ICU), one or all later ones', 'Every allocation of the call through operator new, the C library (malloc, calloc, strdup, ...) and ICU is failed in turn on the real code; the thorough tier runs under AddressSanitizer. What ICU allocates once in a process and the text of an error message are taken to succeed.'),
 'P18': ('model_checking', 'explicit-state search over sequences of interface calls on handles, compared with fresh handles, under AddressSanitizer with heap accounting', 'All call sequences up to the stated depth over a small set of texts and addresses.'),
 'P19': ('exploration', 'exhaustive enumeration of all code points, their neighbours and malformed byte strings, against a reference decoder', CASE),
 'P20': ('exploration', 'exhaustive enumeration of lengths, bit positions and ways to cut a text, against an independent MD5', CASE),
 'P21': ('exploration', 'exhaustive enumeration of case and composition variants of addresses over all letters, metamorphic oracle', CASE),
 'P22': ('exploration', 'exhaustive enumeration of word sets, insertion orders and texts, against plain sets', CASE),
 'P23': ('exploration', 'exhaustive enumeration of classes, sets of classes, entries and rules through their written forms', CASE),
 'P24': ('model_checking', 'explicit-state search over interleaved calls of the SQL functions under a stand-in server, compared row by row with the library', 'The real C and C++ code runs under AddressSanitizer against a stand-in for the database server runtime, which is trusted.'),
 'P25': ('exploration', 'exhaustive run over every word of every shipped lexicon and every shipped grammar', CASE + 'The space is the shipped data of the working tree.'),
 'P26': ('exploration', 'exhaustive enumeration of byte strings and of single-byte edits at every place of every kind of input', CASE + 'The thorough tier runs under AddressSanitizer; both run with a heap whose fresh and freed memory is overwritten.'),
 'P27': ('exploration', 'exhaustive enumeration of small input files through the real tools, outputs read back by independent readers', CASE + 'The script for the database is read by a small SQL reader written for the check; no database server runs it.'),
 'P28': ('model_checking', 'explicit-state search over histories of loading, copying, assigning, destroying and querying grammars, searches and lexicons, each object compared with a value model', 'All histories up to the stated depth over two grammars, two searches, a vector and two lexicons, on the real code under AddressSanitizer.'),
 'P29': ('fault_enumeration', 'enumeration of every failing allocation of the database, and of the library, in every SQL call after histories of calls, with the calls after it and the end of the query', 'Every allocation that the real C code asks of the stand-in for the database server, and every one of the library (operator new, calloc, strdup), fails in turn, under AddressSanitizer; the stand-in is trusted.'),
 'P30': ('exploration', 'stateless exploration of the schedules of two threads under a controlled scheduler, one (two) forced switches at every place, with a happens-before race detector on each', 'The real library runs in two real threads that run one at a time; every place where a function starts or ends, or a lock is taken or given up, is a place to switch (quick: the first time from each call in the code). ThreadSanitizer judges each schedule, and the results are compared with those of each thread alone. ICU and the C++ library are not compiled with the detector.'),
}
have = sorted({os.path.basename(f)[2:5] for f in glob.glob(HERE + '/c_P*.cpp')})
m = {'version': 1, 'setup_cmd': 'python3 -c "import sys; sys.exit(0)"', 'checks': [], 'not_applicable': []}
for p, (level, tech, note) in sorted(C.items()):
    if p in have:
        m['checks'].append({'property': p, 'quick_cmd': 'python3 mc/run.py %s quick' % p, 'thorough_cmd': 'python3 mc/run.py %s thorough' % p,
                            'evidence_file': 'evidence/%s.json' % p, 'technique': tech, 'level': level, 'level_note': note})
    else:
        m['not_applicable'].append({'property': p, 'reason': 'the check is not finished yet'})
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1, ensure_ascii=False)
open(V + '/MANIFEST.json', 'a').write('\n')
