import copy
from rlib import np
import pandas as pd
from shipgrav import utils

FLAGS = ['clamp status', 'GPSsync', 'reserved', 'feedback', 'R1', 'R2', 'ADlock', 'ack host',
         'NavMod1', 'NavMod2', 'dgs1_trouble', 'dgs2_trouble', 'GPStime', 'ADsat', 'nemo1', 'nemo2']


def run(r):
    for w in range(65536):
        try:
            d = utils.decode_dgs_status_bits(w)
        except Exception as e:  # noqa: BLE001
            r.fail('decode_dgs_status_bits(%d) raised %r' % (w, e), word=w)
        r.evals += 1
        ok = isinstance(d, dict) and list(d) == FLAGS and all(d[f] == str((w >> (15 - i)) & 1) for i, f in enumerate(FLAGS))
        if not ok:
            r.fail('word %d decodes to %r' % (w, d), word=w)
    r.nontrivial.update(range(65536))
    for k in r.rounds(.7):
        n = r.size(0, 40, (0, 1, 2))
        nc = int(r.rng.integers(1, 5))
        names = ['status' if r.rng.random() < .5 else 'word'] + ['c%d' % j for j in range(nc - 1)]
        key = names[0]
        if key != 'status' and nc > 1 and r.rng.random() < .4:
            names[1] = 'status'     # a column of that name that is not the one named
        words = r.rng.integers(0, 65536, size=n) if r.rng.random() < .7 else r.rng.integers(0, 4, size=n) * 21845
        cols = {q: words if q == key else r.rng.integers(0, 65536, size=n) if q == 'status' else r.rng.normal(size=n) for q in names}
        names = list(r.rng.permutation(names))
        df = pd.DataFrame({q: cols[q] for q in names})
        if r.rng.random() < .5 and n:
            df.index = r.rng.permutation(n) + int(r.rng.integers(0, 50)) if r.rng.random() < .5 else ['r%d' % (j % 3) for j in range(n)]
        ref = df.copy()
        kw = {} if key == 'status' and r.rng.random() < .5 else {'key': key}
        out = r.call(utils.decode_dgs_status_bits, [df], kw)
        r.note((tuple(names), words.tobytes(), repr(kw)), {'columns': names, 'words': words[:6].tolist()})
        info = dict(columns=names, words=words, key=key)
        r.require(list(out.columns) == names[:1] + FLAGS + names[1:], 'columns are %s' % list(out.columns), **info)
        r.require(list(out.index) == list(ref.index), 'row index changed', **info)
        for i, f in enumerate(FLAGS):
            r.require(list(out[f]) == [str((int(w) >> (15 - i)) & 1) for w in words], 'flag %s wrong: %r' % (f, list(out[f])[:10]), **info)
        for q in names:
            r.require(out[q].equals(ref[q]), 'column %s changed' % q, **info)
    for bad in (1.0, '5', None, [1, 2], np.int64(3), True, (1,), np.array([1, 2]), pd.Series([1, 2])):
        r.refused(utils.decode_dgs_status_bits, [bad])
