"""What each check runs: the bounded models, the number of random histories and the corpus."""
import os

import models

# Genuine defects on record (known_findings.txt): the history that fails and the error it ends with
KNOWN = {
    'C08': [
        dict(what='a property declared sconcat or bconcat that has children of its own cannot be converted to a dictionary '
                  '(TypeError): Declare with ChildPropertyType sconcat for A.B, rows "A,x", "A.B,y", "B.C,z"',
             error='TypeError',
             history=dict(files={'w/d.csv': [['SSection', 'SDeclaredTerms', 'STermValueName', 'SChildPropertyType'],
                                             ['SDeclareTerm', 'SA.B', 'S', 'Ssconcat']],
                                 'w/main.csv': [['SDeclare', 'Sd'], ['SA', 'Sx'], ['SA.B', 'Sy'], ['SB.C', 'Sz'], ['SA.B', 'Sq']]},
                          ops=[dict(op='load', d=1, src='file', path='w/main.csv', more=False),
                               dict(op='dict', d=1, what='doc', pth=[], rep=True)])),
    ],
}

N = dict(C27=400, C19=720, C21=640, C28=320)


def plan(prop, tier):
    n = N.get(prop, 960)
    if tier == 'thorough':
        n *= 25
    n = int(n * float(os.environ.get('VERIF_SCALE', '1')))
    return dict(models=models.jobs(prop, tier == 'thorough'), random=n, shards=max(8, n // 60), corpus=[], assumptions=[])
