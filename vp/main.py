"""python3-vt -m vp.main C01 [C02 ...]: decide the properties on the current tree of /repo."""
import importlib, os, resource, signal, sys, threading, time, traceback


MEMORY = 5 << 30


def stop(c):
    """the time is up: report what was found so far"""
    c.notes.append('the analysis was stopped at the time limit; what it had not reached is not covered')
    c.coverage.setdefault('explanation', 'incomplete: the analysis was stopped at the time limit')
    rc = 0
    try:
        rc = c.finish()
        sys.stdout.flush()
    finally:
        me = os.getpid()
        for p in os.listdir('/proc'):
            try:
                if p.isdigit() and int(open('/proc/%s/stat' % p).read().rsplit(')', 1)[1].split()[1]) == me:
                    os.kill(int(p), signal.SIGKILL)
            except (OSError, ValueError, IndexError):
                pass
        os._exit(rc)


def main():
    ids = sys.argv[1:]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in ids:
        ids.remove('--thorough')
        tier = 'thorough'
    os.environ['VERIF_TIER'] = tier
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    from vp import core, extract
    from vp.checks import CHECKS
    rc = 0
    # a runaway evaluation must end as a failed part, not take the machine's memory
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
    for i in ids:
        c = core.Check(i, tier)
        w = threading.Timer(800 if tier == 'quick' else 6 * 3600, stop, (c,))
        w.daemon = True
        w.start()
        try:
            prog = extract.program()
        except extract.ExtractError as e:
            print('the library cannot be analysed:', e)
            c.violation('extract', 'the crate does not compile under the analysis driver: %s' % str(e)[-400:])
            c.coverage = {'explanation': 'nothing analysed: the crate does not compile'}
            w.cancel()
            rc |= c.finish()
            continue
        try:
            CHECKS[i](c, prog)
        except (Exception, MemoryError):
            # not a verdict: what was reported before it stands, the rest was not analysed
            try:
                t = traceback.format_exc()
            except Exception:
                t = 'an error that could not be formatted'
            print('the analysis did not finish:', t[-1500:])
            c.notes.append('the analysis did not finish: ' + t[-600:])
            c.coverage.setdefault('explanation', 'incomplete: the analysis stopped on a construct it does not know')
        w.cancel()
        rc |= c.finish()
    sys.exit(rc)


if __name__ == '__main__':
    main()
