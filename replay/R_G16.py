import math
import os
from rlib import np
import iolib
import tomli
from shipgrav import utils

WORDS = ['alpha', 'GPGGA', 'port 7', 'COM1', 'a b c', 'x-y_z', 'IS TRUE', 'TRUELOVE', 'a=b', 'k=1=2', 'deg/s', 'N/A', "it's", '5 mm', '1.2.3', 'nope', '-',
         '$GPGGA', 'mean: 4', '(none)', 'TRUE or FALSE', '5,2', '1_', 'INI', 'ini', 'toml', '1e', '--5', 'é', '100%', '5f', '1.5f', '3d', '2L', '7j', 'NaN', 'Infinity', '12h', '0x', '1.', '.5', '1e5x']
QUOTED = ['', 'a # b', 'abc', 'two words', 'http://host/x', 'a // b', 'TRUE', 'say FALSE', '# not a comment', 'a=b', '[x]', 'tab\there', '12', ' padded ', '$x', '//', 'true']


def number(r):
    u = r.rng.random()
    if u < .3:
        return str(int(r.rng.integers(-9999, 99999)))
    if u < .6:
        return '%.*f' % (int(r.rng.integers(1, 8)), r.rng.uniform(-1e4, 1e4))
    if u < .75:
        return '%de%d' % (int(r.rng.integers(1, 9)), int(r.rng.integers(-9, 9)))
    if u < .85:
        return '%s%.3fE%s%02d' % (r.pick(['', '-', '+']), r.rng.uniform(1, 9), r.pick(['+', '-', '']), int(r.rng.integers(1, 20)))
    return r.pick(['0', '0.0', '-0.0', '1_000', '+7', '1e-6'])


def same(a, b):
    if isinstance(a, float) and isinstance(b, float) and math.isnan(a) and math.isnan(b):
        return True
    return type(a) is type(b) and a == b


def run(r):
    rng = r.rng
    with iolib.Scratch() as sc:
        for k in r.rounds():
            lines, want, cur = [], {}, None
            nsec = int(rng.integers(0, 4))
            layout = []
            tops = int(rng.integers(0, 4)) if nsec == 0 or rng.random() < .3 else 0
            layout += [('kv', None)] * tops
            for s in range(nsec):
                layout += [('sec', r.pick(['Sensor', 'TRUE', 'a b', 'platform', 'FALSE_ALARM', 'x.y', 'cal_1']).replace(' ', '_') + ('%d' % s))]
                layout += [('kv', None)] * int(rng.integers(0, 7))
            cur = want
            kn = 0
            keys = set()
            for kind, nm in layout:
                while rng.random() < .25:
                    lines.append(r.pick(['', '// a comment', '# note', '//TRUE = 5', '//[x]', '# a = b', '// "quoted" // twice', '// "odd', '//', ' ', '\t', '   \t', '  // indented', '\t# indented', '  //[x]']))
                if kind == 'sec':
                    if rng.random() < .2:
                        nm = '"%s %d"' % (r.pick(['a = b', 'x=1', 'Sea Ice', 'TRUE', '# 5', 'http://x', 'k= v', '$S', 'say = FALSE']), len(lines))
                    lines.append(r.pick(['', '', '', ' ', '\t']) + '[%s]' % nm + r.pick(['', '', '  // the section', ' # s']))
                    cur = want
                    for part in ([nm[1:-1]] if nm[0] == '"' else nm.split('.')):
                        cur = cur.setdefault(part, {})
                    keys = set()
                    continue
                kn += 1
                key = r.pick(['k', 'gain', 'TRUE_HEADING', 'use_FALSE', 'G-1', '7', 'ini', 'toml', 'x']) + '%d' % kn
                u = rng.random()
                com = r.pick(['', '', '', '  // units', ' # a=b', '//x', ' // 5 // 6', '\t// tabbed', ' // TRUE', ' // "q" and //', ' //'])
                if u < .2:
                    v = r.pick(['TRUE', 'FALSE', 'true', 'false'])
                    val = v.lower() == 'true'
                elif u < .45:
                    v = number(r)
                    val = tomli.loads('x = ' + v)['x']
                elif u < .7:
                    val = r.pick(QUOTED)
                    if '\t' in val and rng.random() < .5:
                        val = 'plain'
                    v = '"%s"' % val
                else:
                    val = v = r.pick(WORDS)
                    if rng.random() < .3 and r.newstrs:
                        c = [x for x in r.newstrs if x.strip() == x and x and not any(q in x for q in '"\\\n\t#=') and '//' not in x]
                        if c:
                            val = v = r.pick(c)
                    try:
                        float(v)
                        continue
                    except ValueError:
                        if v in ('true', 'false', 'TRUE', 'FALSE'):
                            continue
                pad = r.pick([' ', '', '  ', '\t'])
                lines.append(('' if '$' in v else r.pick(['', '', '', '$'])) + key + pad + '=' + r.pick([' ', '', '  ', '\t']) + v + r.pick(['', ' ', '  ']) * (com == '') + com)
                cur[key] = val
            text = '\n'.join(lines) + r.pick(['\n', '', '\n\n'])
            stem = r.pick(['meter', 'ini', 'dgs.ini', 'n', 'A.B', 'mini', 'AT1M-inn', 'bikini'])
            d = os.path.join(sc.dir, 'd%d.ini' % k)
            os.mkdir(d)
            p = os.path.join(d, stem + '.ini')
            with open(p, 'w', newline='') as f:
                f.write(text)
            info = dict(text=text, name=stem + '.ini')
            if rng.random() < .3:
                with open(os.path.join(d, stem + '.toml'), 'w') as f:
                    f.write(r.pick(['old = 1\n', '\n' * 400, 'a' * 3000]))     # left by an earlier run
            got = r.call(utils.clean_ini_to_toml, [p])
            r.require(got == os.path.join(d, stem + '.toml'), 'returned path is %r' % got, **info)
            r.require(sorted(os.listdir(d)) == sorted([stem + '.ini', stem + '.toml']), 'files written: %s' % os.listdir(d), **info)
            r.require(open(p, newline='').read() == text, 'the input file was changed', **info)
            out = open(got).read()
            try:
                tree = tomli.loads(out)
            except Exception as e:  # noqa: BLE001
                r.fail('the result is not TOML: %s' % e, output=out, **info)

            def cmp(a, b, where):
                r.require(isinstance(b, dict) and list(a) == list(b), 'keys under %s are %s, expected %s' % (where, list(b) if isinstance(b, dict) else b, list(a)),
                          output=out, **info)
                for q in a:
                    if isinstance(a[q], dict):
                        cmp(a[q], b[q], where + '/' + q)
                    else:
                        r.require(same(a[q], b[q]), '%s/%s is %r, the setting was %r' % (where, q, b[q], a[q]), output=out, **info)
            cmp(want, tree, '')
            ol = out.split('\n')
            r.require(out.rstrip('\n').count('\n') == text.rstrip('\n').count('\n'), 'the lines do not correspond', output=out, **info)
            for a, b in zip(lines, ol):
                if a.strip().startswith('//') or a.strip().startswith('#'):
                    r.require(b.strip().startswith('#'), 'comment line became %r' % b, output=out, **info)
            r.note(text, {'text': text[:200]})
            for f in os.listdir(d):
                os.unlink(os.path.join(d, f))
            os.rmdir(d)
