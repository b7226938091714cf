"""Rewrites sections 6 and 7 of DESIGN.md (between the markers) from seeded/ and the evidence files of the last run of every check."""
import glob
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
BEGIN, END = '<!-- generated by mkdesign.py -->', '<!-- end of generated part -->'


def main():
    p = os.path.join(HERE, 'DESIGN.md')
    s = open(p).read()
    out = ['', '## 6. Planted bugs and the checks that catch them', '',
           'Each is kept in `seeded/<id>/`; all pass the 129 stable tests. Caught by the check of the property named, '
           'unless the last column says otherwise.', '', '| id | property | needs | breaks |', '|---|---|---|---|']
    for d in sorted(glob.glob(os.path.join(HERE, 'seeded', '*'))):
        m = json.load(open(os.path.join(d, 'meta.json')))
        out.append('| %s | %s | %s | %s |' % (os.path.basename(d), m['property'], m['needs'], m['what_it_breaks']))
    out += ['', '## 7. Contracts and obligations per property (quick tier)', '',
            '| property | contracts | proved for all sizes | bounded sizes | sampled only | obligations discharged | functions under contract |',
            '|---|---|---|---|---|---|---|']
    tot = [0] * 6
    for f in sorted(glob.glob(os.path.join(HERE, 'evidence', 'C??.json'))):
        e = json.load(open(f))
        c = e['coverage']
        cs = c.get('contracts', [])
        st = [k['status'] for k in cs]
        proved = sum('all sizes' in x for x in st)
        samp = sum(k['obligations'] == 0 for k in cs)
        row = [len(cs), proved, len(cs) - proved - samp, samp, c['discharged'], len(c['functions_under_contract'])]
        tot = [a + b for a, b in zip(tot, row)]
        out.append('| %s | %d | %d | %d | %d | %d/%d | %d |' % ((e['property'],) + tuple(row[:5]) + (c['obligations'], row[5])))
    out.append('| all | %d | %d | %d | %d | %d | |' % tuple(tot[:5]))
    out.append('')
    a = s.split(BEGIN)[0].rstrip('\n')
    b = s.split(END)[1] if END in s else '\n'
    open(p, 'w').write(a + '\n\n' + BEGIN + '\n'.join(out) + END + b)


if __name__ == '__main__':
    main()
