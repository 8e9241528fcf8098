#!/usr/bin/env python3
"""corrupt.py [PROPERTY...]: alters single fields of records of the unchanged tree
and lets TLC validate them: shows which fields the specification really judges
(a validation which accepts anything would be worth nothing)."""
import json, os, random, sys, collections
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/vf')
import core, checks

PER = 60


def alter(r, f, rnd):
    v = r[f]
    if isinstance(v, bool):
        return not v
    if isinstance(v, int):
        return v + rnd.choice([1, -1]) if v > 0 else v + 1
    if isinstance(v, str):
        return None
    if isinstance(v, list) and v and all(isinstance(x, int) for x in v):
        v = list(v)
        if f in ('tx', 'txb', 'ntx', 'more'):
            d = [i for i, c in enumerate(v) if 48 <= c <= 57]
            if not d:
                return None
            i = rnd.choice(d)
            v[i] = 48 + (v[i] - 48 + rnd.randrange(1, 10)) % 10
        else:
            v[-1] ^= 1
        return v
    if isinstance(v, list) and v and all(isinstance(x, list) and x for x in v):
        v = [list(x) for x in v]
        rnd.choice(v)[-1] ^= 1
        return v
    return None


def main():
    table = {}
    orig = core.Check.validate

    def validate(self, recs, name='trace', module='Trace', **kw):
        got = orig(self, recs, name=name, module=module, **kw)
        if module == 'TraceHist':
            return history(self, recs, name, kw, got)
        if module != 'Trace':
            return got
        rnd = random.Random(5)
        by = collections.defaultdict(list)
        for x in recs:
            r = json.loads(x)
            for f in r:
                if f not in ('op', 'ty'):
                    by[r['op'], f].append(r)
        out, what = [], []
        for (op, f), rs in sorted(by.items()):
            for r in rnd.sample(rs, min(PER, len(rs))):
                v = alter(r, f, rnd)
                if v is not None and v != r[f]:
                    out.append(json.dumps(dict(r, **{f: v})))
                    what.append((op, f))
        if out:
            try:
                rej = orig(self, out, name=name + '_altered', module=module, **kw)[0]
            except core.Broken:   # a list of another length may be no record at all
                rej = []
                for w in sorted(set(what)):
                    ix = [i for i, x in enumerate(what) if x == w]
                    try:
                        rej += [ix[j] for j in orig(self, [out[i] for i in ix], name=name + '_altered', module=module, **kw)[0]]
                    except core.Broken:
                        print(self.prop, w, 'no record')
            count(self.prop, rej, what)
        return got

    def count(prop, rej, what):
        rej = set(rej)
        for i, w in what.items() if isinstance(what, dict) else enumerate(what):
            t = table.setdefault(prop, {}).setdefault('%s.%s' % w, [0, 0])
            t[0] += i in rej
            t[1] += 1

    def history(self, recs, name, kw, got):
        # one altered event in every stretch of fifty: the following events are
        # judged as if it had been right
        rnd = random.Random(6)
        out, what = list(recs), {}
        for b in range(0, len(recs) - 50, 50):
            i = b + rnd.randrange(25)
            r = json.loads(recs[i])
            if r['op'] not in ('ret', 'consult', 'answer'):
                continue
            f = rnd.choice([f for f in r if f not in ('op', 't')])
            v = alter(r, f, rnd)
            if v is not None and v != r[f]:
                out[i] = json.dumps(dict(r, **{f: v}))
                what[i] = (r['op'], f)
        try:
            count(self.prop, orig(self, out, name=name + '_altered', module='TraceHist', **kw)[0], what)
        except core.Broken as e:
            print(self.prop, name, str(e)[-600:])
        return got
    core.Check.validate = validate
    core.Check.model = lambda self, *a, **k: None
    for p in sys.argv[1:] or ['C%02d' % i for i in range(1, 21)]:
        checks.run(p)
        print(p, '  '.join('%s %d/%d' % (k, a, b) for k, (a, b) in sorted(table.get(p, {}).items())), flush=True)


if __name__ == '__main__':
    main()
