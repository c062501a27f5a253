"""Obligations, evidence and verdict of one check run."""
from __future__ import annotations
import json, os, sys, time, traceback
from pathlib import Path
from .engine import AnalysisError

ROOT = Path(__file__).resolve().parent.parent


class Ctx:
    def __init__(self, pid, repo, tier, seed):
        self.pid, self.repo, self.tier, self.seed = pid, repo, tier, seed
        self.t0 = time.time()
        self.rules = {}
        self.obs = []          # (rule, key, ok, detail, where)
        self.engines = []
        self.funcs = set()
        self.scen = []
        self.notes = []

    def rule(self, name, text, minimum=1):
        self.rules[name] = dict(text=text, minimum=minimum, checked=0, failed=0)

    def ob(self, rule, key, ok, detail='', where=''):
        """One obligation: `key` names the construct (not a line number)."""
        r = self.rules[rule]
        r['checked'] += 1
        if not ok:
            r['failed'] += 1
        self.obs.append((rule, str(key), bool(ok), str(detail)[:600], str(where)))
        return ok

    def use(self, run):
        self.scen.append(run.label)
        if run.E not in self.engines:
            self.engines.append(run.E)
        return run

    def seen(self, E, label=None):
        if label:
            self.scen.append(label)
        if E not in self.engines:
            self.engines.append(E)


def known(pid):
    """Entries of known_findings.txt: 'known: property=<id> key=<rule>|<construct> :: text'."""
    out = {}
    f = ROOT / 'known_findings.txt'
    if f.exists():
        for l in f.read_text().splitlines():
            if l.startswith('known: '):
                head, _, text = l[7:].partition(' :: ')
                d = dict(x.split('=', 1) for x in [head.split(' key=')[0], 'key=' + head.split(' key=')[1]])
                if d['property'] == pid:
                    out[d['key']] = text
    return out


def main(checks, argv=None):
    import argparse
    p = argparse.ArgumentParser()
    p.add_argument('pid')
    p.add_argument('--tier', default='quick', choices=['quick', 'thorough'])
    p.add_argument('--repo', default='/repo')
    p.add_argument('--no-evidence', action='store_true')
    p.add_argument('-v', action='store_true')
    a = p.parse_args(argv)
    sys.setrecursionlimit(60000)
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    ctx = Ctx(a.pid, a.repo, a.tier, seed)
    fn, level, technique = checks[a.pid]
    try:
        fn(ctx)
    except AnalysisError as ex:
        ctx.rule('analysable', 'every public operation can complete normally on some path', 0)
        ctx.ob('analysable', 'operation', False, str(ex), '')
    except Exception:
        traceback.print_exc()
        print(f'{a.pid}: the analysis itself failed, no verdict')
        return 2
    for n, r in ctx.rules.items():
        if r['checked'] < r['minimum']:
            ctx.obs.append((n, 'instances', False, f"only {r['checked']} construct(s) found that the rule applies to, at least {r['minimum']} must exist", ''))
            r['failed'] += 1
    kn = known(a.pid)
    seen, viol, found = set(), [], {}
    for rule, key, ok, detail, wh in ctx.obs:
        if ok:
            continue
        k = f'{rule}|{key}'
        if k in kn:
            found[k] = kn[k]
        elif k not in seen:
            seen.add(k)
            viol.append(dict(rule=rule, construct=key, detail=detail, where=wh, text=ctx.rules[rule]['text']))
    inl = sorted(ctx.funcs.union(*[e.inlined for e in ctx.engines]))
    cov = dict(
        explanation='Static value-flow/effect analysis of the current source: every function reachable from the listed entry '
                    'points is interpreted abstractly (nothing of /repo is executed); each obligation is a construct the rule was applied to.',
        technique=technique, entry_points=ctx.scen, functions_analysed=len(inl), functions=inl,
        events=sum(len(e.events) for e in ctx.engines),
        call_sites=len({str(ev.loc) + ev.name for e in ctx.engines for ev in e.events if ev.kind == 'call'}),
        rules={n: dict(rule=r['text'], obligations=r['checked'], undischarged=r['failed'], minimum=r['minimum']) for n, r in ctx.rules.items()},
        obligations=sum(r['checked'] for r in ctx.rules.values()), known_findings=sorted(found), notes=ctx.notes[:50])
    if not a.no_evidence:
        d = ROOT / 'evidence'
        d.mkdir(exist_ok=True)
        (d / f'{a.pid}.json').write_text(json.dumps(dict(
            property=a.pid, tier=a.tier, seed=seed, level=level, coverage=cov, wall_s=round(time.time() - ctx.t0, 3)), indent=1) + '\n')
    for n, r in ctx.rules.items():
        print(f"{a.pid} {n}: {r['checked']} obligations, {r['failed']} undischarged (minimum {r['minimum']})")
    if a.v:
        for o in ctx.obs:
            print('  ', 'ok ' if o[2] else 'BAD', o[0], '|', o[1], '|', o[3][:300], '|', o[4])
    for k, t in found.items():
        print(f'KNOWN-FINDING: property={a.pid} {k} {t}')
    if viol:
        d = ROOT / 'out'
        d.mkdir(exist_ok=True)
        rp = d / f'{a.pid}.violations.json'
        rp.write_text(json.dumps(dict(property=a.pid, violations=viol), indent=1) + '\n')
        for v in viol:
            print(f"  {v['rule']}: {v['construct']} at {v['where']}: {v['detail']}")
        print(f'VIOLATION property={a.pid} replay={rp}')
        return 1
    print(f'{a.pid} holds on everything analysed: {cov["obligations"]} obligations, {cov["functions_analysed"]} functions, {round(time.time() - ctx.t0, 1)} s')
    return 0
