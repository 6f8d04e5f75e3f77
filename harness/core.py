"""Runner: sharded, seeded, shrinking Hypothesis search with evidence and replay.

A property module defines ID, TITLE, SUBS (list of Sub) and optionally
ASSUMPTIONS. Each Sub has a strategy producing a JSON-able case and a check
that raises Violation. Everything a case does is a function of the case alone.
"""
from __future__ import annotations

import contextlib
import hashlib
import importlib
import io
import json
import multiprocessing as mp
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get('WEAC_REPO', '/repo')
WEAC = os.path.join(os.path.realpath(REPO), 'weac')


class Violation(Exception):
    """The property does not hold. `finding` names a defect class that the
    known-findings file may list; anything else is always reported."""

    def __init__(self, msg, finding=None):
        super().__init__(msg)
        self.finding = finding


class Sub:
    """One generated check. examples = (quick, thorough) case counts."""

    def __init__(self, name, strategy, check, examples, rule, edge=()):
        self.name, self.strategy, self.check = name, strategy, check
        self.examples, self.rule, self.edge = examples, rule, list(edge)


class Rec:
    """What one case exercised."""

    def __init__(self):
        self.nontrivial = False
        self.labels = []
        self.metrics = {}

    def label(self, *names):
        self.labels.extend(n for n in names if n)

    def metric(self, name, value):
        """Track the largest observed relative error."""
        value = float(value)
        if value > self.metrics.get(name, -1.0):
            self.metrics[name] = value


def close(rec, name, got, want, scale, tol, what):
    """|got - want| <= tol*scale, elementwise, NaN-safe; else Violation."""
    import numpy as np
    got = np.asarray(got, dtype=float)
    want = np.asarray(want, dtype=float)
    if got.shape != want.shape:
        raise Violation(f'{what}: shape {got.shape}, expected {want.shape}')
    err = np.abs(got - want)
    s = np.broadcast_to(np.asarray(scale, dtype=float), err.shape)
    with np.errstate(divide='ignore', invalid='ignore'):
        rel = np.where(err == 0, 0.0, err / s)
    worst = np.max(rel) if rel.size else 0.0
    if not worst <= tol:
        i = int(np.argmax(np.where(np.isfinite(rel), rel, np.inf)))
        raise Violation(
            f'{what}: got {got.ravel()[i]!r}, expected {want.ravel()[i]!r} '
            f'(deviation {worst:.3g} of scale {s.ravel()[i]:.4g}, tolerance {tol:g}, entry {i})')
    rec.metric(name, worst)


def known_findings(pid):
    path = os.path.join(ROOT, 'known_findings.json')
    if not os.path.exists(path):
        return {}
    with open(path) as f:
        data = json.load(f)
    return {k['finding']: k for k in data.get('findings', []) if k['property'] == pid}


def _in_weac(exc):
    tb = exc.__traceback__
    while tb is not None:
        f = os.path.realpath(tb.tb_frame.f_code.co_filename)
        if f.startswith(WEAC + os.sep):
            return True
        tb = tb.tb_next
    return False


# results of undocumented form or type; anything else is an error of the harness
UNUSABLE = (ValueError, TypeError, IndexError, KeyError, AttributeError, ArithmeticError)


def run_case(sub, case, known, hits):
    """Run one case; return Rec or raise Violation (or a harness error)."""
    rec = Rec()
    out = io.StringIO()
    case = json.loads(json.dumps(case))
    try:
        with contextlib.redirect_stdout(out):
            rec.out = out
            sub.check(case, rec)
    except Violation as v:
        if v.finding in known:
            hits[v.finding] = hits.get(v.finding, 0) + 1
            return rec
        raise
    except Exception as e:  # noqa
        if _in_weac(e):
            last = traceback.extract_tb(e.__traceback__)[-1]
            raise Violation(f'unexpected {type(e).__name__} on a valid input: {e} '
                            f'(raised in {os.path.basename(last.filename)}:{last.name})') from e
        if isinstance(e, UNUSABLE):     # what weac returned cannot be evaluated
            last = traceback.extract_tb(e.__traceback__)[-1]
            raise Violation(f'results cannot be evaluated: {type(e).__name__}: {e} '
                            f'(in {os.path.basename(last.filename)}:{last.name}, line {last.lineno})') from e
        raise
    return rec


CASE_SECONDS = 200      # cases take well below a few seconds


class Hang(BaseException):
    pass


def _alarm(*_):
    raise Hang


def _collect(pool, jobs, t_end):
    """Results of the shards that end before t_end."""
    it = pool.imap_unordered(_shard, jobs, chunksize=1)
    res = []
    while len(res) < len(jobs):
        try:
            res.append(it.next(timeout=max(1.0, t_end - time.time())))
        except mp.TimeoutError:
            break
        if os.environ.get('VERIF_FAST') and res[-1][2]['viol']:
            break               # tools/mutate.py only asks whether there is any
    return sorted(res, key=lambda r: (r[0], r[1]))


def _shard(args):
    pid, sidx, shard, n, seed, workdir, t_end = args
    own = os.path.join(workdir, f'shard-{sidx}-{shard}')
    os.makedirs(own, exist_ok=True)
    os.chdir(own)
    signal.signal(signal.SIGALRM, _alarm)
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    try:
        import hypothesis.internal.conjecture.engine as eng
        eng.MAX_SHRINKING_SECONDS = 40
    except Exception:
        pass
    mod = load(pid)
    sub = mod.SUBS[sidx]
    known = known_findings(pid)
    st = {'evals': 0, 'labels': {}, 'metrics': {}, 'hits': {}, 'samples': [],
          'hashes': set(), 'viol': None, 'error': None}
    last = {}
    st['cut'] = 0

    def body(case):
        if time.time() > t_end and not last:
            st['cut'] += 1      # inconclusive tail, never a violation
            return
        if not last:            # counts cover the search, not the shrinking
            st['evals'] += 1
        signal.alarm(CASE_SECONDS)
        try:
            rec = run_case(sub, case, known, st['hits'])
        except Violation as v:
            last['case'], last['msg'] = case, str(v)
            raise
        except Hang:
            if not last:
                last['case'], last['msg'] = case, f'no result within {CASE_SECONDS} s'
            raise
        finally:
            signal.alarm(0)
        if last:
            return
        for lb in set(rec.labels):
            st['labels'][lb] = st['labels'].get(lb, 0) + 1
        for k, v in rec.metrics.items():
            st['metrics'][k] = max(st['metrics'].get(k, 0.0), v)
        if rec.nontrivial:
            txt = json.dumps(case, sort_keys=True)
            st['hashes'].add(hashlib.sha1(txt.encode()).hexdigest()[:16])
            # the first cases are the simplest ones; keep later ones
            if len(txt) < 3000 and st['evals'] < 40:
                st['samples'] = st['samples'][-1:] + [case]

    try:
        if shard == 0:
            for case in sub.edge:
                body(case)
        if n > 0:
            test = settings(
                max_examples=n, database=None, deadline=None, print_blob=False,
                phases=(Phase.generate,) if os.environ.get('VERIF_FAST') else (Phase.generate, Phase.shrink),
                report_multiple_bugs=False,
                suppress_health_check=[HealthCheck.too_slow, HealthCheck.data_too_large,
                                       HealthCheck.large_base_example],
            )(hypothesis.seed(seed)(given(sub.strategy())(body)))
            test()
    except Violation:
        st['viol'] = (last['case'], last['msg'])
    except BaseException as e:  # noqa
        if last:
            st['viol'] = (last['case'], last['msg'])
            st['note'] = repr(e)[:300]
        else:
            st['error'] = ''.join(traceback.format_exception(e))[-4000:]
    st['hashes'] = list(st['hashes'])
    st['job'] = {'sub': sidx, 'shard': shard, 'cases': n, 'seed': seed}
    return sidx, shard, st


def load(pid):
    return importlib.import_module(f'harness.props.{pid.lower()}')


def _alone(args):
    """Does the case fail in a process that ran no other case?"""
    pid, name, case, workdir = args
    own = tempfile.mkdtemp(dir=workdir)
    os.chdir(own)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_SECONDS)
    try:
        run_case(next(s for s in load(pid).SUBS if s.name == name), case, known_findings(pid), {})
        return False
    except (Violation, Hang):
        return True
    finally:
        signal.alarm(0)


def fails_alone(*args):
    with mp.get_context('fork').Pool(1) as pool:
        try:
            return pool.apply_async(_alone, (args,)).get(timeout=CASE_SECONDS + 60)
        except Exception:
            return True


def write_replay(pid, sub, case, msg, search=None):
    d = os.path.join(ROOT, 'replays')
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:10]
    path = os.path.join(d, f'{pid}-{sub}-{h}.json')
    with open(path, 'w') as f:
        data = {'property': pid, 'sub': sub, 'message': msg, 'case': case}
        if search:      # needs the cases before it: repeat the whole search
            data['search'] = search
        json.dump(data, f, indent=1)
    return path


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--replay')
    ap.add_argument('--sub')
    ap.add_argument('--scale', type=float, default=1.0)
    ap.add_argument('--jobs', type=int, default=min(8, os.cpu_count() or 1))
    a = ap.parse_args(argv)
    pid = a.property.upper()
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    tier = tier if tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    workdir = tempfile.mkdtemp(prefix='weac-verif-')
    os.environ['MPLCONFIGDIR'] = os.path.join(workdir, 'mpl')
    os.makedirs(os.environ['MPLCONFIGDIR'])
    try:
        return _main(a, pid, t0, tier, seed, workdir)
    finally:
        os.chdir('/')
        shutil.rmtree(workdir, ignore_errors=True)


def _main(a, pid, t0, tier, seed, workdir):
    import weac  # noqa
    real = os.path.realpath(os.path.dirname(weac.__file__))
    if real != WEAC:
        print(f'harness error: weac imported from {real}, expected {WEAC}')
        return 2
    mod = load(pid)
    known = known_findings(pid)
    if a.replay:
        with open(a.replay) as f:
            r = json.load(f)
        sub = next(s for s in mod.SUBS if s.name == r['sub'])
        os.chdir(workdir)
        if 'search' in r:
            k = r['search']
            with mp.get_context('fork').Pool(1) as pool:
                st = pool.apply(_shard, ((pid, k['sub'], k['shard'], k['cases'], k['seed'], workdir, t0 + 3600),))[2]
            if st['viol']:
                print(st['viol'][1])
                print(f'VIOLATION property={pid} replay={a.replay}')
                return 1
            print(f'{pid}: replay {a.replay} holds')
            return 0
        signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(CASE_SECONDS)
        try:
            run_case(sub, r['case'], known, {})
        except (Violation, Hang) as v:
            print(str(v) or f'no result within {CASE_SECONDS} s')
            print(f'VIOLATION property={pid} replay={a.replay}')
            return 1
        print(f'{pid}: replay {a.replay} holds')
        return 0
    jobs = []
    limit = float(os.environ.get('VERIF_SECONDS', '560' if tier == 'quick' else '14000'))
    for i, s in enumerate(mod.SUBS):
        if a.sub and s.name != a.sub:
            continue
        n = s.examples[0 if tier == 'quick' else 1] * a.scale
        shards = 8      # whatever the number of processes: the same cases
        if n < shards:
            shards = max(1, int(n))
        per = int(-(-n // shards))
        for k in range(shards):
            jobs.append((pid, i, k, per, seed * 100003 + i * 1009 + k, workdir,
                         t0 + limit))
    # interleave shards so that every core is busy
    jobs.sort(key=lambda j: j[2])
    ctx = mp.get_context('fork')
    with ctx.Pool(min(a.jobs, len(jobs)), maxtasksperchild=4) as pool:
        res = _collect(pool, jobs, t0 + limit + CASE_SECONDS + 80)
    lost = len(jobs) - len(res)
    tot = {'evals': 0, 'hits': {}, 'hashes': 0, 'cut': 0}
    per_sub, samples, errors, viols = [], [], [], []
    for i, s in enumerate(mod.SUBS):
        mine = [st for si, _, st in res if si == i]
        if not mine:
            continue
        labels, metrics, hashes, ev = {}, {}, set(), 0
        for st in mine:
            ev += st['evals']
            tot['cut'] += st['cut']
            hashes |= set(st['hashes'])
            for k, v in st['labels'].items():
                labels[k] = labels.get(k, 0) + v
            for k, v in st['metrics'].items():
                metrics[k] = max(metrics.get(k, 0.0), v)
            for k, v in st['hits'].items():
                tot['hits'][k] = tot['hits'].get(k, 0) + v
            if st['error']:
                errors.append((s.name, st['error']))
            if st['viol']:
                viols.append((s.name,) + tuple(st['viol']) + (st['job'],))
        tot['evals'] += ev
        tot['hashes'] += len(hashes)
        per_sub.append({'check': s.name, 'evaluations': ev, 'distinct_nontrivial': len(hashes),
                        'rule': s.rule, 'labels': dict(sorted(labels.items())),
                        'largest_relative_deviation': {k: float(f'{v:.3g}') for k, v in sorted(metrics.items())}})
        for st in mine:
            if st['samples'] and len([x for x in samples if x['check'] == s.name]) < 2:
                samples.append({'check': s.name, 'case': st['samples'][0]})
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': tot['evals'], 'distinct_nontrivial': tot['hashes'],
            'rule': ' || '.join(f"{p['check']}: {p['rule']}" for p in per_sub),
            'samples': samples, 'checks': per_sub,
            'not_run_for_time': tot['cut'], 'known_finding_hits': tot['hits'],
        },
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
        'wall_s': round(time.time() - t0, 2), 'violations': len(viols),
    }
    dry = bool(os.environ.get('VERIF_NO_WRITE'))    # while trying planted bugs
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.devnull if dry else os.path.join(ROOT, 'evidence', f'{pid}.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for k, v in known.items():
        print(f"KNOWN-FINDING: property={pid} {v['what']} [{k}; met in {tot['hits'].get(k, 0)} cases]")
    print(f"{pid} {getattr(mod, 'TITLE', '')}: {tot['evals']} cases, {tot['hashes']} distinct "
          f"non-trivial, {ev['wall_s']} s, seed {seed}, tier {tier}")
    for p in per_sub:
        if os.environ.get('VERIF_VERBOSE'):
            print('  ', json.dumps(p))
    if viols:
        shown = set()
        for name, case, msg, job in viols:
            if name in shown:
                continue
            shown.add(name)
            path = 'none'
            if not dry:
                path = write_replay(pid, name, case, msg,
                                    None if fails_alone(pid, name, case, workdir) else job)
            print(f'  {name}: {msg}')
            print(f'VIOLATION property={pid} replay={path if dry else os.path.relpath(path, ROOT)}')
        return 1
    if lost:
        print(f'harness error: {lost} shards gave no result', file=sys.stderr)
        return 2
    if errors:
        for name, e in errors[:2]:
            print(f'harness error in {name}:\n{e}', file=sys.stderr)
        return 2
    return 0
