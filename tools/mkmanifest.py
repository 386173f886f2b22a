#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(here + '/properties.jsonl')]
NOTE = {
 'C01': ('every honest proof is judged by the library and by an independent verifier', 'true statements over special and random witnesses, points, nonces and parameter sets'),
 'C02': ('every range proof, its blinding and its aggregate are checked against an independent implementation', 'values by bit pattern, out-of-range values, thread counts and special randomness'),
 'C03': ('an independent verifier of the documented protocol decides every forged transcript', 'one- and two-tweak forgeries of every item of the four sigma protocols'),
 'C04': ('an independent verifier decides every forged ABC and inequality proof', 'one- and two-tweak forgeries of outer and embedded proof, cheating provers'),
 'C05': ('an independent verifier decides every forged range proof', 'every entry and the aggregate changed with the other conditions readjusted, cheating provers'),
 'C06': ('an independent relation check decides whether the witness fits; the prover must refuse or produce nothing that verifies', 'single changes of every secret, point and side'),
 'C07': ('a proof first seen to verify must be refused after every change', 'every statement point, proof member and parameter changed or exchanged'),
 'C08': ('an online monitor recovers every nonce from proof and witness and watches repetition, relations and distribution', 'repeated, consecutive and concurrent proofs, counted and windowed randomness'),
 'C09': ('a statistical monitor over recorded proofs compares both branches bit by bit and relation by relation', 'thousands of proofs per side, alarm at 7 standard deviations'),
 'C10': ('an independent decoder and member-by-member comparison', 'library proofs, arbitrary members, fragmented streams'),
 'C11': ('panic, hang, allocation and goroutine monitors around every decoder and verifier, in worker processes', 'all short strings, prefixes, splices, hostile lengths, missing members, off-curve points'),
 'C12': ('an independent encoder is the oracle for every byte', 'border and random values, all short inputs, every truncation, failing and re-entrant readers and writers'),
 'C13': ('an independent group implementation runs in lockstep', 'all pairs of special points, special scalars, programs over shared registers'),
 'C14': ('an independent group implementation runs in lockstep; freshness monitor over generated keys', 'special and random values, randomness and keys; six parameter sets'),
 'C15': ('an independent group implementation runs in lockstep', 'both precomputed tables completely; special and random operands'),
 'C16': ('a shadow machine of integers modulo the prime runs in lockstep with the field code', 'random programs within the documented magnitude limits, special words and values'),
 'C17': ('an independent ECDSA, RFC 6979 and recovery implementation decides every signature', 'special keys, hashes of all lengths, constructed signatures'),
 'C18': ('independent parsers decide every byte string', 'every header, length and single-byte change; special coordinates and integers'),
 'C19': ('an independent implementation of the ciphertext format, and a tamper and freshness monitor', 'all lengths to 300, every bit flip, truncation and exchange'),
 'C20': ('the Go race detector and a comparison of every concurrent result with the sequential one', 'mixed operations on shared objects with injected delays; fresh processes for first use'),
 'C21': ('deep snapshots of every argument, result and shared value compared before and after', 'every operation of the API with sentinels behind slices, aliased arguments, and histories of later operations'),
 'C22': ('every fault point is enumerated: randomness failing, short or early at each byte; readers and writers failing at each byte', 'all provers, commitments, encoders and decoders'),
 'C23': ('an independent prover and verifier; proofs are rebuilt from recovered nonces and compared bit for bit', 'all kinds and parameter sets'),
 'C24': ('a shadow ledger of plain integers runs next to the commitments and tokens', 'random histories with transfers, negative, zero and cancelled entries under several keys'),
 'C25': ('an independent implementation computes every result from the contents at the time of the call', 'the same objects overwritten between calls, contents put back or exchanged, returned slices and parsed buffers overwritten'),
}
CLAIMED = open(here + '/tools/claimed').read().split()
checks = []
for p in props:
    i = p['id']
    if i not in CLAIMED:
        continue
    how, what = NOTE[i]
    tech = {'C20': 'runtime monitoring: Go race detector and sequential-result oracle over concurrent workloads',
            'C22': 'runtime monitoring under enumerated fault injection: ' + how,
            'C16': 'runtime monitoring of the real field code against an integer shadow machine'}.get(i, 'runtime monitoring: ' + how)
    checks.append({
        'property': i,
        'quick_cmd': './run.sh ' + i,
        'thorough_cmd': 'VERIF_TIER=thorough ./run.sh ' + i,
        'evidence_file': 'evidence/%s.json' % i,
        'technique': tech,
        'level': 'fault_enumeration' if i == 'C22' else 'exploration',
        'level_note': 'Held on the executions observed: %s. Oracle: %s. Trusts the reference implementation in harness/src/vref, the Go toolchain and standard library; says nothing of inputs and schedules not run.' % (what, how),
    })
na = [{'property': p['id'], 'reason': 'the check is not built yet'} for p in props if p['id'] not in CLAIMED]
m = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: the monitors watch the exported interface; C16 adds one file to package btcec through go build -overlay. Every run builds from /repo in a scratch GOPATH under TMPDIR.'}
json.dump(m, open(here + '/MANIFEST.json', 'w'), indent=1)
open(here + '/MANIFEST.json', 'a').write('\n')
