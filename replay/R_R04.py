import json
from rlib import np
import iolib
from shipgrav import io
import pandas as pd

TAGS = ['PASHR', 'HEHDT', 'PHGST', 'PHZDA', 'INXYZ', 'GPABC']


def run(r):
    rng = r.rng
    with iolib.Scratch() as sc:
        for k in r.rounds():
            tags = [str(x) for x in rng.permutation(TAGS)[:int(rng.integers(1, 5))]]
            fm, names, fields = {}, {}, {}
            for t in tags:
                m = int(rng.integers(1, 9))
                nm = ['F%s%d' % (t, j) for j in range(m)]
                sfx = [r.pick([':g', ':d', ':of', ':w', '']) for _ in nm]
                names[t] = [a + b for a, b in zip(nm, sfx)]
                if m > 3 and rng.random() < .3:     # unit letters of the sentence, under their own name
                    i, j = rng.choice(np.arange(1, m), size=2, replace=False)
                    nm[i] = nm[j] = 'M'
                    names[t][i] = names[t][j] = 'M'
                for a in nm:
                    if rng.random() < .7:
                        fields[a] = {'units': 'u' + a, 'description': 'd ' + a}
                fm[t] = '${:.2}%s,' % t[2:] + ','.join('{%s}' % x if x != 'M' else x for x in names[t])
                if rng.random() < .3:
                    names[t][-1] += '*CheckSum:x'
                    fm[t] += '*{CheckSum:x}'
            for t in TAGS:
                if t not in fm and rng.random() < .2:
                    fm[t], names[t] = '$%s,{Zz:g}' % t, ['Zz:g']
            doc = {'Dev': {'category': 'device_type', 'format': fm, 'fields': fields}}
            y = sc.write(json.dumps(doc), 'yaml')
            tag = r.pick(tags)
            n = r.size(1, 30, (1, 2))
            lines, want = [], []
            times, dg = iolib.instants(r, n, 6)
            blank = rng.random() < .1       # few fields filled in
            for i in range(n):
                here = tag if (i == 0 or rng.random() < .5) else r.pick(tags)
                if i == 0 and n > 1 and rng.random() < .5 and len(tags) > 1:
                    here = [t for t in tags if t != tag][0]
                if i == n - 1 and not want:
                    here = tag
                vals = []
                for c in names[here]:
                    u = rng.random()
                    vals.append('%d' % rng.integers(-500, 500) if u < .3 else '%.4f' % rng.uniform(-500, 500) if u < .6 else
                                r.pick(['N', 'M', 'ok', 'x7', '+2.03', '-0.60']) if u < .9 and not blank else '')
                if here == tag and names[here] and names[here][-1].endswith('*CheckSum:x'):
                    vals[-1] += '*%02X' % rng.integers(0, 256)
                pre = '%sZ ' % times[i].strftime('%Y-%m-%dT%H:%M:%S.%f') if rng.random() < .6 else ''
                if rng.random() < .1:
                    pre = 'logged by the device on the main mast, channel %d of the %s network at ' % (rng.integers(1, 9), 'vessel' * int(rng.integers(1, 90))) + pre
                lines.append('%s$%s,%s' % (pre, here, ','.join(vals)))
                if here == tag:
                    want.append((pre, vals))
                if rng.random() < .1:
                    lines.append(r.pick(['# %s starts', '%s', '$%sX,1,2', '$X%s,1,2,3', 'no $%s here', '', ' ', '%s,1,2', '$ %s,5,6']).replace('%s', tag))
            eol = r.pick(['\n', '\r\n'])
            text = eol.join(lines) + (eol if rng.random() < .5 else '')
            p = sc.write(text.encode('ascii'), mode='wb')
            arg = r.pick([tag, '$' + tag])
            info = dict(yaml=fm, text=text[:2500], tag=arg)
            try:
                df, ci = io.read_other_stuff(y, p, arg)
            except Exception as e:  # noqa: BLE001
                import traceback
                r.fail('read_other_stuff raised %s: %s' % (type(e).__name__, e), trace=traceback.format_exc()[-800:], **info)
            r.require(list(df.columns) == names[tag] + ['mystery'], 'columns are %s' % list(df.columns), **info)
            r.require(len(df) == len(want), '%d rows for %d sentences' % (len(df), len(want)), **info)
            for i, (pre, vals) in enumerate(want):
                for j, (c, v) in enumerate(list(zip(names[tag], vals)) + [('mystery', pre)]):
                    g = df.iloc[i, j]
                    try:
                        w = float(v)
                        ok = not (isinstance(g, str) and names[tag].count(c) == 1) and abs(float(g) - w) <= 1e-12 * abs(w)
                    except ValueError:
                        ok = (isinstance(g, str) and g == v) or (v == '' and not isinstance(g, str) and pd.isna(g))
                    r.require(ok, 'row %d, %s is %r, the sentence says %r' % (i, c, g, v), **info)
            wc = {c: fields[c.split(':')[0]] for c in names[tag] if c.split(':')[0] in fields}
            r.require(ci == wc, 'field info is %r' % (ci,), **info)
            # a tag that is not in the description, or not in the data
            missing = [t for t in TAGS if t not in fm]
            if missing:
                r.refused(io.read_other_stuff, [y, p, r.pick(['', '$']) + missing[0]])
            absent = [t for t in fm if '$' + t + ',' not in text]
            if absent:
                r.refused(io.read_other_stuff, [y, p, r.pick(['', '$']) + absent[0]])
            r.note((text, arg), {'tag': arg, 'first_line': lines[0]})
            sc.empty()
