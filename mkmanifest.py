#!/usr/bin/env python3
"""Writes MANIFEST.json (run by hand when a check is added)."""
import json
T = {
 'C01': ('two real sessions on an instrumented transport, state monitor against an independent key agreement', 'randomised schedules'),
 'C02': ('adversarial peer and man-in-the-middle workloads, acceptance monitor with an ownership oracle', 'active attacker'),
 'C03': ('network-attack workloads on recorded packets, prefix monitor on every delivery', 'active attacker'),
 'C04': ('hook on the encryption call plus offline nonce-sequence checker over the wire log', 'nonce log'),
 'C05': ('history recording and exactly-once FIFO oracle with unique messages', 'FIFO model'),
 'C06': ('byte-exact trace comparison with an independent protocol implementation as peer', 'reference peer'),
 'C07': ('differential monitor: every parse and build against an independent codec', 'reference codec'),
 'C08': ('hostile-input stress with an exception monitor and CPU-time non-termination detector', 'fuzzing workloads'),
 'C09': ('segmentation and end-of-stream stress on real sockets and streams, framing oracle', 'segmentations'),
 'C10': ('wire-log scanner for secrets, identities and plaintext; every packet opened with the session key', 'wire log'),
 'C11': ('flag monitor on packets, transport calls and the .last attribute against a model', 'flag model'),
 'C12': ('merged event log of keeper, checker, transport and application against a trace specification', 'trace specification'),
 'C13': ('handshake outcome monitor over wanted/actual identity combinations and lying servers', 'identity matrix'),
 'C14': ('request/answer monitor for A1/A2 with an independent codec and expected-answer oracle', 'answer oracle'),
 'C15': ('differential runtime comparison of all crypto back ends with libsodium/hashlib, tamper monitor', 'differential'),
 'C16': ('AddressSanitizer and valgrind memcheck around CPython while parsing, building and calling the native back end', 'sanitizers'),
 'C17': ('interference monitor: concurrent runs compared with solo runs (tasks, threads, loops)', 'solo-run oracle'),
 'C18': ('concurrent-history recording, offline exactly-once/ordering checker', 'history checker'),
 'C19': ('differential monitor of the synchronous against the asynchronous API', 'differential'),
 'C20': ('transparency monitor: wrapped against bare channel, log and counter oracle', 'differential'),
 'C21': ('spies on every back end in fresh processes, selection and randomness monitors', 'spies'),
 'C22': ('connection-break injection at every byte, message and write, outcome monitor', 'fault injection'),
 'C23': ('recording relay around the bundled sessions, byte comparison with the reference session', 'recording relay'),
 'C24': ('cancellation and transient-fault injection, exactly-once history checker', 'fault injection'),
 'C25': ('history recording on tunnels over threads and processes, exactly-once FIFO oracle', 'FIFO model'),
 'C26': ('stand-alone encrypted channels under attack, wire and delivery monitor against an independent sealing', 'active attacker'),
 'C27': ('differential monitor of packet objects through random histories against an independent encoder', 'reference encoder'),
 'C28': ('stalled peers on model transports and real sockets, progress and amount monitor', 'back-pressure'),
 'C29': ('resource monitors (traced memory, descriptors, threads, tasks) over repeated phases of workloads', 'leak detection'),
}
NOTE = {
 'C01': 'Held on the observed executions: random keys, all option combinations, both APIs, random suspension points; trusts PyNaCl for the expected session key.',
 'C02': 'Held on the observed attacks (every bit of M1/M2, forged, spliced, replayed, reflected and re-signed M3/M4, two-faced man in the middle); cryptographic hardness is assumed.',
 'C03': 'Held on the observed manipulations (every bit and truncation of packets, replay at distances around 2^k in long sessions, reordering, reflection, splicing); cryptographic hardness is assumed.',
 'C04': 'Held on the observed sessions; nonces are taken from the wire (trial decryption) and from the crypto call, long sessions reach tens of thousands of packets, counters are not driven to 2^63.',
 'C05': 'Held on the observed histories; sizes and counts include all boundaries up to above 65535.',
 'C06': 'Held on the observed sessions; the reference implementation (vlib/ref.py) was written from the protocol text and checked with the published example sessions.',
 'C07': 'Held on the observed inputs: exhaustive over short inputs, headers and length fields at the boundaries, random and mutated packets otherwise.',
 'C08': 'Held on the observed inputs, in every protocol state and both APIs; authenticated hostile packets included.',
 'C09': 'Held on the observed streams: all single cuts and all end positions of small streams, random segmentations of larger ones.',
 'C10': 'Held on the observed sessions; looks for the data itself (8-byte windows), not for statistical leakage.',
 'C11': 'Held on the observed scripts, including all batch shapes at the packet-type boundaries.',
 'C12': 'Held on the observed sessions; times include the boundaries of the field.',
 'C13': 'Held on the observed combinations; near-miss keys included.',
 'C14': 'Held on the observed exchanges; all protocol counts 0..127 and malformed answers.',
 'C15': 'Held on the observed calls; libsodium as bundled with PyNaCl and hashlib are trusted; tweetnacl runs on a stand-in with the same API.',
 'C16': 'No report on the observed executions; the observers are proven alive by canaries in each run. ASan sees interposed functions, valgrind every access.',
 'C17': 'Held on the observed groups; thread schedules are sampled (switch interval down to 1 microsecond), not enumerated.',
 'C18': 'Held on the observed interleavings, whose number is reported.',
 'C19': 'Held on the observed scripts, with honest, hostile and failing peers, in main and other threads.',
 'C20': 'Held on the observed histories.',
 'C21': 'Held on all configurations of available back ends; freshness is judged by collisions and monobit tests with negligible false-alarm probability.',
 'C22': 'Held on the observed breaks: every byte position and every message of the scripts.',
 'C23': 'Held on the observed runs of the bundled sessions; the reference bytes come from the independent implementation.',
 'C24': 'Held on the observed histories: cancellation at every loop step and stream position, injected failures before delivery and after acceptance.',
 'C25': 'Held on the observed histories; a lost message in a blocking read is recognised by 90 s without any progress.',
 'C26': 'Held on the observed histories; nonces up to a few dozen packets per channel (C03/C04 have the long sessions); cryptographic hardness is assumed.',
 'C27': 'Held on the observed histories of all nine packet classes.',
 'C28': 'Held on the observed stalls; the bound used is 6 MiB, several times what kernel and stream buffers hold.',
 'C29': 'Held on the observed workloads; growth smaller than the noise threshold per repetition (see DESIGN.md) is not seen.',
}
LEVEL = {'C22': 'fault_enumeration'}
m = {'version': 1,
     'setup_cmd': '/opt/venv/bin/python -B -c "import nacl, ctypes"',
     'checks': [{'property': p, 'quick_cmd': '/opt/venv/bin/python -B run.py %s' % p,
                 'thorough_cmd': 'VERIF_TIER=thorough /opt/venv/bin/python -B run.py %s' % p,
                 'evidence_file': 'evidence/%s.json' % p,
                 'technique': 'runtime monitoring: ' + T[p][0], 'level': LEVEL.get(p, 'exploration'), 'level_note': NOTE[p]} for p in sorted(T)],
     'not_applicable': [],
     'notes': 'No hooks in /repo: everything is observed at public interfaces or from the harness process. Genuine defects were repaired in "fix:" commits, see known_findings.txt.'}
open('MANIFEST.json', 'w').write(json.dumps(m, indent=1) + '\n')
