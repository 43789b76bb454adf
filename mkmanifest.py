"""writes MANIFEST.json"""
import json
T = 'contract-based deductive verification: symbolic execution of the Go SSA of /repo with inferred and checked loop invariants, obligations discharged by z3'
CLAIMED = {
    'C01': 'proof of header, SetVersion and Encode contracts for every request kind and version',
    'C02': 'proof that Encode equals the documented layout for every data-path and group request and version',
    'C03': 'proof that Encode equals the documented layout for every administrative request and version',
    'C04': 'proof that Parse yields what the broker sent for data-path and group responses; the contracts that stay bounded are listed in the evidence',
    'C05': 'proof that Parse yields what the broker sent for every administrative response and version',
    'C06': 'proof that Error of every response kind reports exactly the codes present; table of codes checked entry by entry against the protocol',
    'C07': 'proof that records and batches are encoded in the version-2 layout for every record list and codec, and that each compressor applies its codec to exactly the records',
    'C08': 'proof of the contracts of every function that decodes fetch responses; compressed message sets and truncated ends of whole responses are bounded',
    'C09': 'proof of the contracts of the consumer: position, fetch loop, decoding of the next position, offsets looked up and committed, over all traces',
    'C10': 'proof of the range split for all member and partition counts and of the member protocol codecs; Assign as a whole is bounded (sorting)',
    'C11': 'proof that the version chosen is the best one both sides support and is used for header, body and response',
    'C12': 'proof of the contracts of both producers over all traces: buffer, batch, flush, close, choice of partition and leader',
    'C13': 'proof of the exchange contracts over all traces of lock, dial, write, read and close; all ways the stream is split',
    'C14': 'proof that every request goes to the broker that the metadata or the coordinator lookup name for it: contracts of every function that chooses a broker, over all answers; DescribeLogDirs is bounded',
    'C15': 'proof of the contracts of the group member: join, sync, heartbeat, leave, restart, over all answers of the coordinator',
    'C17': 'proof of parsing, rendering and validation contracts for all settings',
    'C18': 'proof that the comparison holds exactly when the partition lists agree',
    'C16': 'proof of encode and decode contracts of every primitive, for all values',
}
NOT = {
    'C19': 'termination under every schedule of several goroutines, timers and network waits: the contracts here are partial-correctness contracts of one goroutine with events for the rest; they say nothing about progress or about goroutines of other calls still running',
}
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
checks = []
na = []
for p in props:
    i = p['id']
    if i in CLAIMED:
        checks.append({'property': i, 'quick_cmd': 'python3-vt check.py %s quick' % i, 'thorough_cmd': 'python3-vt check.py %s thorough' % i,
                       'evidence_file': 'evidence/%s.json' % i, 'technique': T, 'level': 'proof', 'level_note': CLAIMED[i]})
    else:
        na.append({'property': i, 'reason': NOT.get(i, 'contracts for this part are not built yet')})
m = {'version': 1,
     'setup_cmd': 'bash setup.sh',
     'checks': checks, 'not_applicable': na}
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
