"""Write MANIFEST.json from the checks that exist."""
import ast
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

PY = '/opt/venv/bin/python'

DIFF = ('online differential monitor: recorded engine events and output of '
        'the real renderer against an independent tree-walking reference, on '
        'generated templates')
MODEL = ('Every generated execution is judged by an oracle that never sees '
         'the compiled form; assurance is limited to the executions '
         'observed. Trusts the reference model, the template serialiser and '
         'the recording engine in /verif/harness.')

TECH = {}


def tech(prop, technique=DIFF, note=MODEL):
    TECH[prop] = (technique, note)


for p in 'C05 C06 C08 C09 C10 C11 C12 C13 C14 C15 C19'.split():
    tech(p)
tech('C07', 'fault injection at every engine call, judged by the reference '
     'model given the same failure schedule',
     'Enumerates the engine calls of each generated template (up to a cap) '
     'and fails each in turn, singly, in pairs and persistently. ' + MODEL)
tech('C01', 'output monitor against a token-level oracle on generated and '
     'mutated HTML', 'Trusts the token serialiser of the check; text that '
     'the stdlib tokenizer itself rejects is outside.')
tech('C02', 'output monitor against the source and against an independent '
     'XML parse of it', 'Trusts expat for the parse-back comparison.')
tech('C03', 'acceptance and output monitor against an independent '
     'content-model automaton', 'Trusts the automaton in the check, written '
     'from the documented element tables.')
tech('C04', 'parse-back monitor: output with hostile values against output '
     'with harmless values', 'Trusts html.parser and expat as readers of '
     'the output.')
tech('C16', 'catalog monitor: extracted messages against the message set of '
     'the template tree and against requests observed while rendering',
     MODEL)
tech('C17', 'snapshot, write-guard and schedule monitors over shared '
     'compiled templates under interleaved, threaded, re-entrant and failing '
     'renderings', 'Interleavings are forced at engine calls by a scheduler, '
     'plus free-running threads; bytecode-level interleavings are sampled '
     'only.')
tech('C18', 'rejection monitor: one mistake injected into a correct '
     'template, with its expected kind and position', 'Trusts the catalogue '
     'of mistakes in the check.')
tech('C20', 'output and event monitor with annotations on against off, and '
     'against the reference model\'s file changes', MODEL)
tech('C21', 'layout monitor against an independent line-breaking model',
     MODEL)
tech('C22', 'two-stage rendering monitor: expand then render against direct '
     'rendering, by output and events', MODEL)
tech('C23', 'metamorphic monitor: prefix renaming, redeclaration and '
     'unprefixed statements against the plain form', MODEL)
tech('C24', 'output and event monitor for inserted markup, strict and '
     'lenient', MODEL)
tech('C25', 'delivery monitor: the same document through every input path, '
     'encoding and chunking', 'Trusts equality of compiled programs as '
     'delivered by the public API.')
tech('C26', 'history monitor: random call sequences on the bundled engine '
     'against an independent specification', 'Trusts the specification '
     'written in the check.')
tech('C27', 'compile-time call monitor: expressions handed to the compiler '
     'and rendered effects against what was written', MODEL)
tech('C28', 'lifetime monitor: weak references with the cycle collector off, '
     'and repeated calls', 'CPython reference counting is the reference '
     'semantics; other implementations are outside.')
tech('C29', 'process monitor: the command line tool in a child process '
     'against the library', 'Trusts the process boundary; runs in a scratch '
     'directory.')
tech('C30', 'code-call monitor against the reference model', MODEL)
tech('C31', 'output and event monitor against the reference model with one '
     'step left out', MODEL)
tech('C32', 'comparison monitor: compiled forms of repeated, stored and '
     'foreign compilations, in processes with other hash seeds',
     'Trusts pickle and the process boundary.')
tech('C33', 'report monitor: the tools run on scratch files whose right report '
     'is known from the command line tool',
     'Trusts difflib and the driver (C29).')
tech('C34', 'output monitor with fault injection: streams of many kinds record '
     'every use, and fail at chosen writes',
     'Trusts the recording streams.')
tech('C35', 'work counter: executed lines are counted through sys.monitoring and '
     'compared between sizes; processor time of long runs and large numbers',
     'Processor time tells linear from quadratic work only.')
tech('C36', 'interface monitor: engine and compiler behind facades with exactly the '
     'documented methods, every value an object that fails on any use',
     'The interfaces as published.')
tech('C37', 'metamorphic monitor: recorded output and engine calls of a part alone '
     'against those of the part in generated surroundings',
     'What the surroundings add is known from how they are written.')
tech('C38', 'metamorphic monitor: recorded engine calls, errors and parsed output of '
     'one template in both modes',
     'expat, for reading the output.')
tech('C39', 'differential monitor: engine-call trace and output against an '
     'independent reference on templates with statements in disorder',
     'The reference renderer, which gets the templates as trees.')
tech('C40', 'runtime invariants on output and engine scopes, output read by '
     'independent parsers, templates with statements in disorder',
     'expat and html.parser, for reading the output.')


def attr(path, name):
    with open(path) as f:
        for node in ast.parse(f.read()).body:
            if isinstance(node, ast.Assign) and node.targets[0].id == name:
                return ast.literal_eval(node.value)


def main():
    checks, missing = [], []
    with open(os.path.join(HERE, 'properties.jsonl')) as f:
        props = [json.loads(line) for line in f]
    for p in props:
        pid = p['id']
        path = os.path.join(HERE, 'checks', pid.lower() + '.py')
        if not os.path.exists(path):
            missing.append({'property': pid, 'reason': 'check not built yet'})
            continue
        technique, note = TECH[pid]
        checks.append({
            'property': pid,
            'quick_cmd': '%s run.py %s' % (PY, pid),
            'thorough_cmd': '%s run.py %s' % (PY, pid),
            'evidence_file': 'evidence/%s.json' % pid,
            'technique': technique,
            'level': attr(path, 'LEVEL'),
            'level_note': note,
        })
    data = {
        'version': 1,
        'setup_cmd': '%s tools/selftest.py' % PY,
        'checks': checks,
        'not_applicable': missing,
        'notes': 'No hooks in /repo: all monitors sit at the public '
                 'interfaces (expression engine, output stream, compiler, '
                 'parsers, process). VERIF_TIER selects the depth.',
    }
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(data, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
