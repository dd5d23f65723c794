"""C01-C06: every operation against the textbook law."""
import multiprocessing, os, time
from concurrent.futures import ProcessPoolExecutor
from .. import spec, laws, ra
from ..run import *

LEVEL = {
    'C01': [('distribution',)],
    'C02': [('density',), ('mass',)],
    'C03': [('inverse',)],
    'C04': [('mean',), ('variance',), ('deviation',), ('skewness',), ('kurtosis',)],
    'C05': [('median',), ('modes',)],
    'C06': [('entropy',)],
}
# operations confirmed by reading (types that have the method); a missing one is reported
HAVE = {
    'distribution': set(laws.LAWS), 'entropy': set(laws.LAWS),
    'density': {t for t in laws.LAWS if not laws.LAWS[t].discrete}, 'mass': {t for t in laws.LAWS if laws.LAWS[t].discrete},
    'inverse': set(laws.LAWS) - {'gamma::Gamma'},
    'mean': set(laws.LAWS) - {'cauchy::Cauchy'}, 'variance': set(laws.LAWS) - {'cauchy::Cauchy'}, 'deviation': set(laws.LAWS) - {'cauchy::Cauchy'},
    'skewness': set(laws.LAWS) - {'cauchy::Cauchy'}, 'kurtosis': set(laws.LAWS) - {'cauchy::Cauchy'},
    'median': set(laws.LAWS) - {'gamma::Gamma'}, 'modes': set(laws.LAWS) - {'uniform::Uniform'},
}
PROVE = {'binomial::Binomial': {'mass', 'entropy', 'inverse'}, 'categorical::Categorical': {'inverse', 'distribution', 'median', 'modes', 'entropy', 'mean', 'variance', 'skewness', 'kurtosis', 'deviation', 'mass'}}

SHARDS = {('binomial::Binomial', 'inverse'): 2, ('categorical::Categorical', 'inverse'): 6}
_prog = None


def job(a):
    ty, m, ctor, budget, thorough, shard = a
    try:
        prog = _prog
        rep = spec.check_op(prog, ty, m, ctor, budget=budget, shard=shard)
        if ctor == 'new' and m not in PROVE.get(ty, ()):
            op = Op(prog, ty, m, ctor=ctor)
            argt = op.fn['inputs'][1:]
            t0 = time.time()
            for c, l in rep.cells.items():
                if time.time() - t0 > (200 if thorough else 40):
                    rep.unproved.append(('budget', ''))
                    continue
                done = None
                for prm, args in (l[len(l) // 2], l[0]):
                    o = spec.probe(op, prm, args, argt)
                    if o.status != 'agree':
                        continue
                    done = spec.prove_case(op, prm, args, o, secs=15 if thorough else 5)
                    if done is True or done is None:
                        break
                if done is True:
                    rep.proved.append(spec.describe(op, prm, args))
                elif done is not None:
                    rep.unproved.append((spec.describe(op, prm, args), done))
        rep.cells = {i: len(l) for i, l in enumerate(rep.cells.values())}
        return a, rep, None
    except Missing as e:
        return a, None, ('missing', str(e))
    except Unsupported as e:
        return a, None, ('unsupported', str(e))
    except Exception as e:
        import traceback
        return a, None, ('internal', traceback.format_exc()[-600:])


def ctors(prog, ty):
    r = ['new']
    if ty in ('bernoulli::Bernoulli', 'binomial::Binomial'):
        r.append('with_failure')
    return r


def run(c, prog, pid):
    global _prog
    _prog = prog
    thorough = c.tier == 'thorough'
    jobs = []
    for (m,) in LEVEL[pid]:
        for ty in laws.LAWS:
            if ty in HAVE[m]:
                for k in ctors(prog, ty):
                    many = SHARDS.get((ty, m), 1)
                    jobs += [(ty, m, k, 150 if not thorough else 500, thorough, (i, many)) for i in range(many)]
    jobs.sort(key=lambda j: (j[0] not in ('binomial::Binomial', 'beta::Beta', 'pert::Pert', 'categorical::Categorical'),))
    with ProcessPoolExecutor(8, mp_context=multiprocessing.get_context('fork')) as ex:
        res = c.gather(ex, job, jobs)
    tot = {'agree': 0, 'differ': 0, 'panic': 0, 'skip': 0, 'unknown': 0}
    ops, proved, unproved, samples, unk = {}, 0, [], [], {}
    for (ty, m, k, _, _, _), rep, err in res:
        name = '%s::%s%s' % (ty.split('::')[1], m, '' if k == 'new' else '[%s]' % k)
        if err is not None:
            ops[name] = 'not analysed: ' + err[0]
            if err[0] == 'missing':
                c.violation(name + '/missing', 'the operation %s does not exist any more' % err[1])
            else:
                c.notes.append('%s: %s' % (name, err[1]))
            continue
        for s in tot:
            tot[s] += rep.n[s]
        proved += len(rep.proved)
        unproved += rep.unproved
        samples += rep.samples[:1]
        for w, n in rep.unknown.items():
            unk[w] = unk.get(w, 0) + n
        old = ops.get(name) if isinstance(ops.get(name), dict) else {}
        ops[name] = {'at': rep.where, 'boxes_agreeing': rep.n['agree'], 'undecided': rep.n['unknown'], 'cells': len(rep.cells),
                     'cells_proved_by_normal_form': len(rep.proved), 'guards_mined': rep.guards, 'boxes_from_guards': rep.mined}
        for k_, v_ in old.items():
            if k_ != 'at':
                ops[name][k_] += v_
        for desc, code, ref, why, prm, args, key in rep.violations:
            text = '%s: the code yields %s, the law demands %s' % (desc, why if code == 'panic' else code, ref)
            if key:
                c.finding(key, text, at=rep.where, case=desc, code=code, law=ref)
            else:
                c.violation(name, text + ' [%s]' % rep.where, at=rep.where, case=desc, code=code, law=ref, why=why)
    regime = {'entropy_summed': 0, 'entropy_normal': 0}
    if pid == 'C06' and 'missing' not in str(ops.get('Binomial::entropy')):
        from .binomial_check import entropy_regime
        c.part(entropy_regime, c, prog, regime)
    if tot['agree'] < FLOOR[pid] // 4:
        c.notes.append('only %d boxes decided: the analysis is weak on this tree' % tot['agree'])
    c.coverage = {
        'explanation': 'Abstract interpretation of the MIR of each operation over boxes of parameters and arguments (real intervals, guards '
                       'resolved by the box), against the textbook law evaluated over the same box; boxes come from a table and from the '
                       'boundaries of every comparison in the code. A box is violated only when the two enclosures are disjoint beyond 1e-12 relative. For each cell of '
                       'guards met, the gate-free expression is compared with the textbook expression by algebraic normal form; when equal, the '
                       'whole cell is settled.',
        'operations': len([1 for r in res if r[2] is None]), 'operations_expected': len(jobs),
        'boxes': sum(tot.values()), 'boxes_agreeing': tot['agree'], 'boxes_without_claim': tot['skip'], 'boxes_undecided': tot['unknown'],
        'undecided_reasons': unk, 'cells_proved': proved, 'cells_not_proved': len(unproved), 'not_proved_sample': unproved[:12],
        'binomial_entropy_regimes': regime, 'per_operation': ops, 'samples': samples[:12], 'functions_in_crate': len(prog.d['fns']),
    }
    c.assumptions = ['real arithmetic: rounding errors of the floating-point evaluation are not part of this check (see C10, C17)',
                     'special functions of the dependencies are taken to be exact (C25 not claimed)',
                     'constants of the source that are the nearest double of a well-known irrational number stand for that number',
                     'mpmath with 160 bits and widening encloses the elementary and special functions']


FLOOR = {'C01': 3500, 'C02': 3000, 'C03': 2500, 'C04': 1200, 'C05': 700, 'C06': 500}
CHECKS = {k: (lambda c, p, k=k: run(c, p, k)) for k in LEVEL}
