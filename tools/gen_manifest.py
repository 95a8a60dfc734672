#!/usr/bin/env python3
# writes MANIFEST.json from properties.jsonl and the checks that exist
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
NA = {
    'N02': "Allocation sites are unchecked throughout the library and the parser callbacks have no error channel, so the property fails at nearly every fault point; a repair would be a redesign. The arena, whose interface does report failures, is decided with enumerated allocation faults in C11.",
}
FAULT = {}
checks, na = [], []
for p in props:
    i = p['id']
    if i in NA: na.append({'property': i, 'reason': NA[i]}); continue
    if not os.path.exists(f'{V}/checks/{i}.cpp'):
        na.append({'property': i, 'reason': 'check not built yet'}); continue
    src = open(f'{V}/checks/{i}.cpp').read()
    k = src.rfind('mc::run('); note = ''
    if k >= 0:
        parts = src[k:].split('"')
        note = parts[3] if len(parts) > 3 else ''
    kind = 'the open62541 backend and the loader linked against a mock server' if i[0] == 'B' else 'the real loader code'
    checks.append({
        'property': i,
        'quick_cmd': f'tools/check {i} --tier quick',
        'thorough_cmd': f'tools/check {i} --tier thorough',
        'technique': 'stateless model checking of the implementation: exhaustive enumeration of all choice sequences of a bounded driver over ' + kind + ', each execution compared with an independent reference model',
        'level': 'model_checking',
        'level_note': 'Exhaustive within bounds: ' + note + '. Trusts: the engine in mc/, the reference model in mc/model.cpp' + (', the mock server in shim/src/server.cpp' if i[0] == 'B' else '') + ', the open62541 type shim, libxml2, AddressSanitizer.',
    })
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo. Every check compiles /repo\'s working tree (src/ and, for B*, backends/open62541/src/) into a temporary directory.'},
          open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
