"""Builds the THIR dumper, and dumps /repo's workspace and the reference crate.
Everything lands in /verif/.cache (git-ignored), keyed by a hash of the sources."""
import hashlib, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CACHE = os.environ.get('VERIF_CACHE', os.path.join(V, '.cache'))


class BuildError(Exception):
    pass


def _files(root, skip=('target', '.git', 'node_modules', '.cache')):
    for d, ds, fs in os.walk(root):
        ds[:] = sorted(x for x in ds if x not in skip)
        for f in sorted(fs):
            if f.endswith(('.rs', '.toml', '.lock', '.py')):
                yield os.path.join(d, f)


def tree_hash(*roots):
    h = hashlib.sha256()
    for r in roots:
        for f in _files(r):
            h.update(f.encode()); h.update(b'\0')
            with open(f, 'rb') as fh:
                h.update(fh.read())
            h.update(b'\0')
    return h.hexdigest()[:16]


def run(cmd, cwd, env, what):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise BuildError(f'{what} failed:\n' + p.stdout[-3000:])
    return p.stdout


def sysroot():
    return subprocess.check_output(['rustc', '+nightly', '--print', 'sysroot'], text=True).strip()


def base_env():
    e = dict(os.environ)
    for k in ('RUSTC_WRAPPER', 'RUSTC_WORKSPACE_WRAPPER', 'RUSTFLAGS', 'CARGO_BUILD_TARGET'):
        e.pop(k, None)
    e['CARGO_NET_OFFLINE'] = 'true'
    return e


def driver():
    d = os.path.join(CACHE, 'drv')
    e = base_env(); e['CARGO_TARGET_DIR'] = d
    run(['cargo', '+nightly', 'build', '--offline', '-q'], os.path.join(V, 'driver'), e, 'analysis driver build')
    return os.path.join(d, 'debug', 'thirdump')


def dump(root, name, workspace):
    """Dump the THIR of every workspace crate under `root`; returns the dump directory."""
    h = tree_hash(root, os.path.join(V, 'driver'))
    out = os.path.join(CACHE, f'{name}-{h}')
    if os.path.exists(os.path.join(out, 'ok')):
        return out
    for x in (os.listdir(CACHE) if os.path.isdir(CACHE) else []):
        if x.startswith(name + '-') and x != f'{name}-{h}' and len(x) == len(name) + 17:
            shutil.rmtree(os.path.join(CACHE, x), ignore_errors=True)
    os.makedirs(out, exist_ok=True)
    drv = driver()
    tgt = os.path.join(CACHE, f'tgt-{name}')
    # the dump is written by rustc, so a crate cargo believes fresh would be missing: forget what it knows of the
    # workspace crates, and call the wrapper by a name of this dump, which is part of what cargo remembers
    for sub in ('.fingerprint', 'build', 'incremental'):
        fp = os.path.join(tgt, 'debug', sub)
        if os.path.isdir(fp):
            for x in os.listdir(fp):
                if x.startswith('dandy'):
                    shutil.rmtree(os.path.join(fp, x), ignore_errors=True)
    wrapper = os.path.join(out, 'thirdump')
    shutil.copy2(drv, wrapper)
    e = base_env()
    e['LD_LIBRARY_PATH'] = os.path.join(sysroot(), 'lib')
    e['VERIF_DUMP_DIR'] = out
    e['RUSTC_WORKSPACE_WRAPPER'] = wrapper
    e['RUSTFLAGS'] = '-Zallow-features= -Awarnings'
    e['CARGO_TARGET_DIR'] = tgt
    cmd = ['cargo', '+nightly', 'check', '--offline', '-q'] + (['--workspace'] if workspace else [])
    for attempt in (0, 1):
        run(cmd, root, e, f'type-checking {root}')
        if all(os.path.exists(os.path.join(out, x + '.json')) for x in CRATES[name]):
            break
        shutil.rmtree(tgt, ignore_errors=True)
    else:
        raise BuildError('the compiler did not visit ' + ', '.join(CRATES[name]))
    os.remove(wrapper)
    open(os.path.join(out, 'ok'), 'w').close()
    return out


CRATES = {'repo': ('dandy', 'dandy_cli', 'dandy_draw', 'dandy_egui', 'dandy_wasm'), 'spec': ('dandy', 'dandy_cli', 'dandy_draw', 'dandy_wasm')}


def prepare():
    os.makedirs(CACHE, exist_ok=True)
    return dump(REPO, 'repo', True), dump(os.path.join(V, 'spec'), 'spec', True)


if __name__ == '__main__':
    print(*prepare())
