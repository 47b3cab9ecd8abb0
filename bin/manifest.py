"""Rewrites MANIFEST.json from the table below and properties.jsonl."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'contract-based deductive verification (own VC generator over the clang AST of the real source, z3)'
NOTE = ('Every obligation of the functions under contract is discharged for all inputs, without bound, from the source as it is now. '
        'Trusted: the VC generator, clang\'s AST, z3 and the library models. %s'
        'A bounded executable contract also runs on the compiled code; it replays counterexamples and stands in (labelled) if the source leaves the accepted subset.')
DONE = {
    'P01': '', 'P02': 'Precondition: buffers shorter than 2^60 bytes. ', 'P03': 'Precondition: stream readable and good on entry. ', 'P04': 'Precondition: stream good on entry. ',
    'P05': 'Precondition: stream good on entry. ',
    'P06': 'Precondition: texts shorter than 2^50 bytes. ', 'P07': 'Precondition: separator differs from the quote; texts shorter than 2^50 bytes. ',
    'P08': 'Precondition: texts shorter than 2^50 bytes. ',
    'P09': 'Precondition: stream good on entry and long enough to hold the frame; without the VBR tag lookup. ',
    'P10': 'Trusted: floor(log2(n)/8) in double precision is exact below 2^32. ',
    'P11': 'Precondition: fewer than 2^20 distinct tags, each of size and padding below 2^40. ',
    'P12': 'Precondition: the files can be opened and written; files shorter than 2^40 bytes. ',
    'P16': 'Precondition: fields shorter than 2^40 bytes; tag clouds are in P21, their counts with unsynchronisation by the bounded contract only. ',
    'P17': 'Precondition: contents shorter than 2^40 bytes; trusted: zlib. ',
    'P18': 'Precondition: stream good on entry; trusted: zlib. What becomes of each frame handed on is in P16 and P20. ',
    'P19': 'Precondition: fewer than 2^40 frames; frames keep the contracts of P17; trusted: zlib. ',
    'P20': 'Precondition: fewer than 2^40 frames; positions handed in are positions of the tag. ',
    'P21': 'Precondition: clouds below 2^32 bytes when stored; the text forms use the contracts of P06; the count of pairs needing unsynchronisation is checked by the bounded contract only. ',
    'P13': 'Trusted: the digest library; the duration computation may do anything to the stream. ',
}
NA = {
    'P14': 'Crash points in the middle of file-system operations are outside what function contracts over sequential code can express; the rewrite also crosses rename/copy system calls whose durability no verifier here models.',
    'P15': 'The conversion is done by iconv, an external library with no contract to verify against; a contract assuming iconv is correct would leave nothing to prove.',
}
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': 'bash bin/setup.sh', 'checks': [], 'not_applicable': []}
for p in props:
    i = p['id']
    if i in DONE:
        m['checks'].append({'property': i, 'quick_cmd': 'python3-vt bin/check.py ' + i, 'thorough_cmd': 'python3-vt bin/check.py ' + i,
                            'evidence_file': 'evidence/%s.json' % i, 'technique': TECH, 'level': 'proof', 'level_note': NOTE % DONE[i]})
    else:
        m['not_applicable'].append({'property': i, 'reason': NA.get(i, 'check not built yet')})
m['notes'] = 'Defects found are in known-findings.txt; the design, bounds and trusted base in DESIGN.md.'
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
