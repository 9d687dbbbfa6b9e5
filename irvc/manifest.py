"""python3 -m irvc.manifest: writes properties.jsonl and MANIFEST.json from props.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import props

TECH = 'contract-based deductive verification of the crate\'s bitcode (irvc VC generator; normal-form, interval, z3, cvc5 back ends)'


def main():
    checks = []
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for pid, p in sorted(list(props.PROPS.items()) + list(props.NOT_APPLICABLE.items())):
            f.write(json.dumps({
                'id': pid, 'title': p['title'], 'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['quantifier']},
                'why_tests_cant': p['why'],
                'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mechanism']],
                            'observe_at': p.get('observe', ['public API return values']), 'hook_needed': p.get('hook')},
            }) + '\n')
            assert len(p['title']) <= 80, pid
            if pid in props.PROPS:
                checks.append({
                    'property': pid,
                    'quick_cmd': 'python3 -m irvc.check %s --tier quick' % pid,
                    'thorough_cmd': 'python3 -m irvc.check %s --tier thorough' % pid,
                    'technique': p.get('technique', TECH),
                    'level': p.get('level', 'proof'),
                    'level_note': p['note'],
                })
    m = {'version': 1, 'setup_cmd': 'python3 -m irvc.setup', 'checks': checks,
         'not_applicable': [{'property': k, 'reason': v['reason']} for k, v in sorted(props.NOT_APPLICABLE.items())],
         'notes': props.NOTES}
    if getattr(props, 'HOOKS', None):
        m['hooks'] = props.HOOKS
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
