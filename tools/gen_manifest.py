"""Writes MANIFEST.json from the checks that exist."""
import json
import os
import re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    'C01': 'runtime monitoring: independent JOSE oracle over logins with deviating ID Tokens',
    'C02': 'runtime monitoring: trace oracle over interleaved and hostile multi-session, multi-issuer histories',
    'C03': 'runtime monitoring: uniqueness, freshness and distribution monitors over recorded requests under reseeding and threads',
    'C04': 'runtime monitoring: strict server parser compared with an expected-parameter model',
    'C05': 'runtime monitoring: independent JOSE verification of request objects against the recorded request',
    'C06': 'runtime monitoring: challenge/verifier matching over interleaved recorded traffic',
    'C07': 'runtime monitoring: strict client authentication verifier and secret-leak scanner on all traffic',
    'C08': 'runtime monitoring: independent DPoP proof verifier on all traffic, proof mutation',
    'C09': 'runtime monitoring: executable reference model of token bookkeeping under a virtual clock',
    'C10': 'runtime monitoring: fault injection at the transport with a no-trace oracle',
    'C11': 'runtime monitoring: provider-side ledger against application-side results, deviating user info',
    'C12': 'runtime monitoring: transport monitor and mutated discovery documents',
    'C13': 'runtime monitoring: reference model of preference negotiation over generated metadata',
    'C14': 'runtime monitoring: registration ledger compared with later traffic',
    'C15': 'runtime monitoring: independent normalisation oracle, transport monitor, generated identifiers and link lists',
    'C16': 'runtime monitoring: logout URL oracle over interleaved sessions',
    'C17': 'runtime monitoring: independent JOSE oracle over deviating logout tokens and session populations',
    'C18': 'runtime monitoring: executable map model of the session store over random histories',
    'C19': 'runtime monitoring: stop/restore at every step compared with an uninterrupted twin run',
    'C20': 'runtime monitoring: round-trip and tampering monitor over generated cookies',
    'C21': 'runtime monitoring: standard decoders as oracle over generated requests',
    'C22': 'runtime monitoring: threads with injected delays, per-session ledger and end-state invariants',
    'C23': 'runtime monitoring: differential traffic comparison between orders and solo runs, configuration snapshots',
    'C24': 'runtime monitoring: strict fake OAuth2 server ledger over random grant histories',
    'C27': 'runtime monitoring: status requests read back, provider-specific answers, service lookup compared with the modules',
    'C26': 'runtime monitoring: configuration model compared with what is read, requested and negotiated (TLS hand-shakes in memory)',
    'C25': 'runtime monitoring: transport adapter monitor with hostile redirects and cookies',
}
NOTE = {
    'default': 'Held on the executions driven (see the evidence for counts); nothing is claimed about others. Trusts the '
               'fake provider and JOSE implementation in lib/, the transport hook at requests.adapters.HTTPAdapter.send '
               'and a virtual clock.',
    'C22': 'Held on the schedules that the injected delays, small switch interval and barriers produced (counts of '
           'distinct interleavings in the evidence). A race that needs a narrower window can be missed. Each session is '
           'handled by one thread at a time.',
}
ids = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
checks, na = [], []
for i in ids:
    if os.path.exists(os.path.join(ROOT, 'lib', i.lower() + '.py')):
        checks.append({'property': i, 'quick_cmd': './check %s quick' % i, 'thorough_cmd': './check %s thorough' % i,
                       'evidence_file': 'evidence/%s.json' % i, 'technique': TECH[i], 'level': 'exploration',
                       'level_note': NOTE.get(i, NOTE['default'])})
    else:
        na.append({'property': i, 'reason': 'The check for this property is not built yet.'})
m = {'version': 1, 'setup_cmd': '/opt/venv/bin/python -B -c "import oidcrp, requests, cryptography"', 'checks': checks,
     'not_applicable': na,
     'notes': 'No hooks were added to /repo: the monitors sit at the public API, at the HTTP transport and at the clock, '
              'all installed from /verif/lib.'}
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not claimed')
