"""writes MANIFEST.json from the list of checks (python3 mkmanifest.py)"""
import json
import os
import sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
os.environ['PYTHONHASHSEED'] = '0'
import check                                                # noqa: E402

TECH = {
    'losa': 'path-sensitive effect and typestate analysis: all control paths '
            'from each public function enumerated on abstract values with '
            'every file-system state and I/O failure, effect sequences '
            'checked',
    'radial': 'abstract interpretation of the source to canonical symbolic '
              'summaries (gated-SSA value numbering), compared with a '
              'reference summary',
    'calib': 'abstract interpretation of the source to canonical symbolic '
             'summaries, compared with a reference summary and with their '
             'own transposed/shifted form',
    'flowp': 'interprocedural abstract interpretation over all paths: '
             'aliasing/mutation, effect, value-provenance (taint) and '
             'element-type domains',
    'select': 'abstract interpretation: one-round summaries of open-ended '
              'loops (ranking and partition), canonical selection criteria '
              'compared with a reference summary, provenance dataflow',
    'measure': 'abstract interpretation of the source to canonical symbolic '
               'summaries, compared with a reference summary',
    'report': 'abstract interpretation of the source to canonical symbolic '
              'summaries; path conditions of warnings compared with a '
              'reference criterion',
    'plots': 'abstract interpretation of the source to symbolic drawing '
             'events, mapped to pixels of the saved image and compared with '
             'a reference summary',
    'pattern': 'abstract interpretation of the source to canonical symbolic '
               'summaries (values and raise conditions), compared with a '
               'reference summary',
}
NA = {
    'N01': 'accuracy of numerical estimates depends on image content and '
           'floating point fits; no static bound in reach',
    'N02': 'the size of the inversion error of a least-squares refit depends '
           'on coefficient values; no static bound in reach',
    'N03': 'detection quality on noisy images is statistical; nothing in the '
           'source decides it',
    'N04': 'convergence of scipy optimisers is a run-time quantity outside '
           'the analysed source',
}


def main():
    import mktech
    props = [json.loads(x) for x in open(os.path.join(here,
                                                      'properties.jsonl'))]
    checks, na = [], []
    for p in props:
        i = p['id']
        if i in check.PROPS:
            checks.append({
                'property': i,
                'quick_cmd': 'python3 /verif/check.py %s' % i,
                'thorough_cmd': 'python3 /verif/check.py %s --thorough' % i,
                'technique': mktech.TECH.get(i) or TECH[check.PROPS[i]],
                'level': 'other',
                'level_note': mktech.NOTE.get(i) or mktech.DEFAULT_NOTE,
            })
        else:
            na.append({'property': i, 'reason': NA.get(i, 'not yet built')})
    json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks,
               'not_applicable': na},
              open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)


main()
