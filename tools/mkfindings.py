#!/usr/bin/env python3
"""Rewrites the `fixed` entries of KNOWN_FINDINGS.jsonl from /repo's fix: commits (development tool)."""
import json, os, re, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
fn = os.path.join(V, 'KNOWN_FINDINGS.jsonl')
old = [json.loads(l) for l in open(fn) if l.strip()]
keep = [e for e in old if e['status'] == 'open']
PROP = [  # first match wins: (regex on the subject, property)
    (r'varying PSFs', 'C24'),
    (r'NCircularGaussianPSF', 'C08'),
    (r'just_variance', 'C14'),
    (r'PsfEx.*(fit|read|FWHM|cell|keeps)|CachingPsfEx|PsfExModel', 'C24'),
    (r'^EM fitting|fromStamp', 'C23'),
    (r'FITS headers', 'C28'),
    (r'integral_image', 'C26'),
    (r'SplineSky FITS', 'C22'),
    (r'GaussianPriors|Gaussian priors', 'C12'),
    (r'LSQR forced photometry', 'C16'),
    (r'SplineSky smoothness prior ignored|dense optimizers|LSQR', 'C14'),
    (r'forced.photometry', 'C16'),
    (r'Image.subimage', 'C20'),
    (r'[Mm]ixture eval|mixture evaluators', 'C07'),
    (r'[Cc]eres', 'C30'),
    (r'cached models|minsb=0', 'C10'),
    (r'Cache evicted|full Cache|hashkey', 'C25'),
    (r'clip extent', 'C08'),
    (r'copy|copying|unpickled', 'C02'),
    (r'setStepSizes|step size|bounds|hashkey|StepSizes|number minus', 'C01'),
    (r'Patch', 'C03'),
    (r'SplineSky', 'C22'),
    (r'EllipseE|ellipse', 'C18'),
    (r'WCS|Wcs|RA derivatives', 'C19'),
    (r'derivative', 'C09'),
    (r'getDerivs', 'C09'),
    (r'mask', 'C05'),
    (r'lanczos|MixtureOfGaussians', 'C06'),
    (r'NormalizedPsf', 'C08'),
    (r'PsfEx', 'C24'),
    (r'PixelizedPSF', 'C08'),
]
out = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], stdout=subprocess.PIPE, text=True).stdout
extra = json.load(open(os.path.join(V, 'tools', 'fixprops.json')))
new = []
n = 0
for l in out.splitlines():
    h, s = l.split(' ', 1)
    if not s.startswith('fix:'):
        continue
    n += 1
    s = s[4:].strip()
    p = extra.get(s) or next((p for r, p in PROP if re.search(r, s)), None)
    assert p, s
    new.append(dict(id='F%02d' % n, property=p, status='fixed', entry='fixed: property=%s %s %s' % (p, h, s)))
with open(fn, 'w') as f:
    for e in keep + new:
        f.write(json.dumps(e) + '\n')
for e in new:
    print(e['entry'])
