#!/usr/bin/env python3
"""Writes MANIFEST.json from the harnesses present and the notes below."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
GEN = 'property-based testing'
T = {
    'C01': (GEN + ': generated networks, XML round-trip', 'Generated networks with all equipment and extensions are written and read back; complete state dumps and second exports are compared.'),
    'C02': (GEN + ': export versions and options, metamorphic relations', 'Generated networks are exported in every version and with generated options; documents and re-read networks are compared with what the version or option keeps.'),
    'C03': (GEN + ' and fuzzing: mutated documents under sanitizers', 'Documents mutated at the byte, token and tree level are imported under AddressSanitizer and UndefinedBehaviorSanitizer; accepted networks are checked for internal consistency. Coverage-guided in the thorough tier.'),
    'C04': (GEN + ': stateful model of variants', 'Histories of variant operations and changes; full dumps of all variants are compared with a model after each step.'),
    'C05': (GEN + ': stateful set model, several threads', 'Random request histories against a set model; histories on several threads.'),
    'C06': (GEN + ': stateful model of identifiers, aliases and listings', 'Histories of creations, removals and alias changes; every lookup and listing is compared with a model kept by the check.'),
    'C07': (GEN + ': differential against direct graph computation', 'Histories of edits, switching and queries; buses are compared with a union-find computed from the switches.'),
    'C08': (GEN + ': differential against direct graph computation', 'Histories of edits, switching and queries; buses are compared with a union-find computed from switches and terminals.'),
    'C09': (GEN + ': differential against direct graph computation', 'Histories of changes; components are compared with a union-find over calculated buses and branches.'),
    'C10': (GEN + ': request outcomes against graph reachability', 'Connection requests on generated topologies; outcome, effect and untouched data are compared with the reachability computed by the check.'),
    'C11': (GEN + ': stateful model of removals', 'Histories of removals; complete dumps are compared with the dump before, without what was removed.'),
    'C12': (GEN + ': predicted acceptance, state comparison', 'Valid, invalid and conflicting creations; acceptance and the complete state after each are compared with a prediction from the documented constraints.'),
    'C13': (GEN + ': predicted acceptance, state comparison', 'Allowed and excluded values for every attribute; acceptance and the complete state after each are compared with a prediction from the documented constraints.'),
    'C14': (GEN + ': stateful model of tap changers', 'Histories of tap changer changes in several variants against a reference model.'),
    'C15': (GEN + ': differential against a direct evaluation', 'Generated curves and models, evaluated at generated and boundary points, against a direct evaluation.'),
    'C16': (GEN + ': differential against a direct evaluation', 'Generated limits and flows, against a direct evaluation.'),
    'C17': (GEN + ': differential against independent circuit equations', 'Generated parameters and states, against circuit equations written independently with complex arithmetic, and inverse relations.'),
    'C18': (GEN + ': stateful model of extensions', 'Histories of extension creations, changes, replacements and removals in several variants, against predictions and complete dumps.'),
    'C19': (GEN + ': twin networks, differential', 'The same history is applied to two networks, one of which is moved in between; outcomes, dumps and exports are compared.'),
    'C20': (GEN + ': stateful reference multigraph', 'Histories of insertions, removals, traversals and path searches against a plain reference multigraph.'),
    'C21': (GEN + ': differential against direct reachability', 'Traversals with generated visitor answers against a direct reachability computation.'),
    'C22': (GEN + ': round-trips over generated text, numbers and dates', 'Generated text, numbers, dates, property lists, enumerations and anonymizer histories, round-tripped and compared.'),
    'C23': (GEN + ': differential histories with and without questions', 'The same generated history run with and without random questions between its steps: outcomes, states in every variant and documents compared; every question asked twice.'),
    'C24': (GEN + ': random histories under address and undefined-behaviour sanitizers', 'Random histories of all kinds of operations and questions run under ASan and UBSan; repeated histories must not use more memory each time.'),
    'C26': (GEN + ': differential histories with and without loggers, model-based logger hierarchy', 'The same generated history runs without and with each kind of logger and must give the same results; a reference model predicts the messages every installed logger receives.'),
    'C27': (GEN + ': interleaved and concurrent histories against the same histories alone, under ThreadSanitizer', 'Several generated histories are repeated interleaved, handed over between threads or at the same time; each must give what it gave alone, without a data race.'),
    'C28': (GEN + ': one damage at a time to accepted documents, well-formedness decided by another parser', 'Accepted documents, generated or of the tests, are damaged in one place (cut, ill-formed, missing attribute, bad value, reference, duplicate, unknown or too recent element); each must be refused.'),
    'C29': (GEN + ': injected stream and file faults at generated places', 'Generated networks are written to and read from streams and files that fail at a generated byte, in several ways; the outcome must match whether all bytes went through, and nothing else may change.'),
    'C30': (GEN + ': differential, histories of adders against new adders', 'Adders of every kind are given values in generated orders, reused, copied and ended; each creation must have the same outcome as by a new adder told the same in another network.'),
    'C25': (GEN + ': metamorphic rewriting of documents', 'Generated and test documents are rewritten in an equivalent form; both must be refused or read as equal networks.'),
}
checks, na = [], []
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
for i in ids:
    src = [f for f in glob.glob(V + '/harness/props/%s_*.cpp' % i)]
    if src and 'PLACEHOLDER' not in open(src[0]).read():
        checks.append({'property': i, 'quick_cmd': 'python3 tools/check.py %s quick' % i, 'thorough_cmd': 'python3 tools/check.py %s thorough' % i,
                       'technique': T[i][0], 'level': 'exploration',
                       'level_note': T[i][1] + ' Evidence of absence only for the cases generated; trusts the generators, the dumps and the reference computations of the check.'})
    else:
        na.append({'property': i, 'reason': 'no check built yet'})
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
           'notes': 'Each check builds /repo\'s working tree (objects cached in build/, ignored by git) and runs one harness of harness/props. See DESIGN.md.'}, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks;', len(na), 'not claimed')
