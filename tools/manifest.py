#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
LEVEL = 'model_checking'
ENUM = 'stateless model checking of the real code: '
TECH = {
 'C01': (ENUM + 'exhaustive enumeration of tree pairs and chains in all contexts, differential oracle (fresh render)', 'bounded tree grammar; every pair executed'),
 'C02': (ENUM + 'exhaustive enumeration of keyed list histories against a reference model of identity, state and effects', 'lists up to 5 keys; every pair and chain executed'),
 'C03': (ENUM + 'all interleavings of dispatches and host callbacks (prefix-replay DFS, controlled host) against the fold model', 'up to 3-4 dispatches; all schedules'),
 'C04': (ENUM + 'all interleavings of (nested) updates and host callbacks in every host configuration, monitors on handles and document', 'up to 3 updates plus nested ones; all schedules'),
 'C05': (ENUM + 'all interleavings of parent, child and root operations with host callbacks against a consistency model', 'up to 3-4 operations; all schedules'),
 'C06': (ENUM + 'all histories and interleavings of dependency changes, mounts and removals against a reference effect log', 'bounded histories'),
 'C07': (ENUM + 'exhaustive fault injection (every render of every component) with all follow-up operations, differential oracle (run without the failed update)', 'one or two faults, bounded histories'),
 'C08': (ENUM + 'all histories over small signal graphs against a reference model, all interleavings with readers in a tree', 'bounded graphs and histories'),
 'C09': (ENUM + 'all operation histories against the same operations on plain data', 'bounded depth'),
 'C10': (ENUM + 'exhaustive enumeration of route trees and URLs against a reference matcher', 'bounded trees'),
 'C11': (ENUM + 'all navigation event configurations and all interleavings of navigations with host callbacks', 'bounded histories'),
 'C12': (ENUM + 'exhaustive enumeration of templates over a fragment alphabet against a reference constructor of the expected DOM', 'bounded templates'),
 'C13': (ENUM + 'all composition histories at one template site against hand-flattened templates', 'bounded fragments'),
 'C14': (ENUM + 'all provider/consumer placements and re-render histories against a reference resolver', 'bounded chains'),
 'C15': (ENUM + 'all listener histories with dispatches against a reference listener table', 'bounded histories'),
 'C16': (ENUM + 'all reference histories against a reference log', 'bounded histories'),
 'C17': (ENUM + 'all value histories per binding kind against a reference model of the node', 'bounded histories'),
 'C18': (ENUM + 'all dependency histories and hook-list pairs against a reference model', 'bounded histories'),
 'C19': (ENUM + 'all interleavings of store, value and transition operations with host callbacks against invariants', 'bounded histories'),
 'C20': (ENUM + 'all schedules with every middleware combination, differential oracle (run without middleware)', 'bounded histories'),
 'C21': (ENUM + 'all host configurations and event orders with a recording host', 'bounded requests'),
 'C22': (ENUM + 'exhaustive enumeration of templates, differential oracle (unminified module)', 'bounded templates'),
 'C23': (ENUM + 'all update histories with mutation records and render counts against a reference of necessary work', 'bounded histories'),
 'C24': (ENUM + 'exhaustive enumeration of component declarations linted by the real linter, against a model of the rule', 'bounded declarations'),
 'C25': (ENUM + 'exhaustive enumeration of fault places in bounded markup and component paths, with parsed messages as observations', 'bounded markup and nesting'),
 'C26': (ENUM + 'every history in every build and environment, differential oracle (the base environment)', 'bounded histories, 14 environments'),
 'C27': (ENUM + 'every history of values in every pair of forms at every place, differential oracle (plain forms made anew)', 'bounded values and histories'),
 'C28': (ENUM + 'every word of operations repeated as a cycle, liveness of every tracked object after full garbage collections', 'bounded cycles'),
 'C29': (ENUM + 'every merge of the operations of two roots and every interleaving with host callbacks up to a deviation bound, differential oracle (each root alone)', 'bounded histories, deviation bound'),
 'C30': (ENUM + 'every history of values per kind of place, with frozen values and recording stand-ins, differential oracle (plain values)', 'bounded histories'),
}
NOT = json.load(open(os.path.join(root, 'tools', 'not_applicable.json')))
props = [json.loads(l) for l in open(os.path.join(root, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    id = p['id']
    if os.path.exists(os.path.join(root, 'checks', id + '.mjs')):
        t, note = TECH[id]
        checks.append({'property': id, 'quick_cmd': f'bash check.sh {id} --tier quick', 'thorough_cmd': f'bash check.sh {id} --tier thorough', 'technique': t, 'level': LEVEL, 'level_note': note})
    else:
        na.append({'property': id, 'reason': NOT.get(id, 'check under construction')})
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na}
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
open(os.path.join(root, 'MANIFEST.json'), 'a').write('\n')
print(len(checks), 'checks', len(na), 'not claimed')
