"""Extraction of the type-checked program (MIR of every body, items, impls) from /repo.

A rustc driver (/verif/driver/main.rs) is injected with RUSTC_WORKSPACE_WRAPPER under
`cargo +nightly check`, in a fresh target directory outside /repo, so every run analyses
the current source of the library with the real build's flags.
"""
import hashlib, json, os, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, '.build')
REPO = os.environ.get('VP_REPO', '/repo')


class ExtractError(Exception):
    pass


def sysroot():
    return subprocess.run(['rustc', '+nightly', '--print', 'sysroot'], capture_output=True, text=True, check=True).stdout.strip()


def driver():
    src = os.path.join(VERIF, 'driver', 'main.rs')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    out = os.path.join(BUILD, 'vpdriver-' + h)
    if os.path.exists(out):
        return out
    os.makedirs(BUILD, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='vpdrv')
    try:
        r = subprocess.run(['rustc', '+nightly', '-O', '--edition', '2021', src, '-o', os.path.join(tmp, 'd')],
                           capture_output=True, text=True)
        if r.returncode:
            raise ExtractError('driver does not build:\n' + r.stderr[-3000:])
        try:
            shutil.copy(os.path.join(tmp, 'd'), out + '.tmp%d' % os.getpid())
            os.rename(out + '.tmp%d' % os.getpid(), out)
            return out
        except OSError:
            return os.path.join(tmp, 'd')
    finally:
        if os.path.exists(out):
            shutil.rmtree(tmp, ignore_errors=True)


def extract(repo=None, args=()):
    repo = repo or REPO
    drv = driver()
    tmp = tempfile.mkdtemp(prefix='vpmir')
    try:
        out = os.path.join(tmp, 'mir.json')
        env = dict(os.environ)
        env.update(VP_MIR_OUT=out, RUSTC_WORKSPACE_WRAPPER=drv, CARGO_TARGET_DIR=os.path.join(tmp, 't'),
                   LD_LIBRARY_PATH=sysroot() + '/lib', CARGO_NET_OFFLINE='true')
        for k in ('RUSTFLAGS', 'RUSTC_WRAPPER', 'CARGO_ENCODED_RUSTFLAGS'):
            env.pop(k, None)
        r = subprocess.run(['cargo', '+nightly', 'check', '--offline', '--lib', '--locked', '--manifest-path',
                            os.path.join(repo, 'Cargo.toml')] + list(args), capture_output=True, text=True, env=env)
        if r.returncode or not os.path.exists(out):
            raise ExtractError('extraction failed:\n' + r.stdout[-1000:] + r.stderr[-4000:])
        return json.load(open(out))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


class Program:
    def __init__(self, d):
        self.d = d
        self.fns, self.by_id, self.impls = {}, {}, {}
        for f in d['fns']:
            f.setdefault('self_ty', None)
            f.setdefault('trait', None)
            self.by_id[f['id']] = f
            if f.get('kind') != 'Closure':
                self.fns.setdefault(f['path'], f)
            if f['trait'] and f['self_ty']:
                self.impls[(f['trait'], f['self_ty'], f['name'])] = f
        self.trait_impls = set()
        for i in d['impls']:
            if i.get('trait'):
                self.trait_impls.add((i['trait'], i.get('self')))
        self.structs = {s['path']: s for s in d['structs']}

    def impl_fn(self, trait, self_ty, name):
        return self.impls.get((trait, self_ty, name))

    def has_impl(self, trait, self_ty):
        return (trait, self_ty) in self.trait_impls

    def method(self, ty, name, trait=None):
        """inherent or trait method of a crate type, by name"""
        for f in self.d['fns']:
            if f['self_ty'] == ty and f['name'] == name and (f['trait'] == trait or trait is None):
                return f
        return None


_prog = None


def program():
    global _prog
    if _prog is None:
        if os.environ.get('VP_MIR'):
            _prog = Program(json.load(open(os.environ['VP_MIR'])))
        else:
            _prog = Program(extract())
    return _prog
