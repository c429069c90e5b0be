"""C37: building packs the whole package and leaves the checkout as it was."""
import importlib.util
import json
import os
import re
import shutil
import subprocess
import sys
import zipfile

from .. import core
from .c24 import Scratch, History, copy_project, judge_full, STYLES

RULE = ('a case is a generated git history in a scratch directory, and a random sequence of builds of every kind asked of it '
        'from different directories, each followed by a comparison of every tracked file and of the version with what they were, '
        'and of the built modules with the sources; or a set-up of the version files, complete or with parts missing; '
        'non-trivial when something was built or set up')
REQUIRED_EVENTS = ('builds', 'modules_compared', 'checkouts_compared', 'sdists', 'built_again', 'imported', 'setups', 'frozen', 'setups_repeated')
ASSUMPTIONS = ['git and setuptools of the sandbox; CONDA_BUILD=1, which leaves the requirements to conda, as the file of '
               'requirements that setup.py reads otherwise is not part of the repository']
CHUNK = 2
CASE_ALARM = 240
TAGS = ['v0.1', 'v1.0', 'v1.0.1', 'v2.0rc1', 'v1.0+local', 'v3', 'v10.11.12', 'v2020.1']
EXERCISE = r'''
import sys, os
sys.dont_write_bytecode = True
sys.path.insert(0, sys.argv[1])
import gcs, gcs.storage, gcs.slice_tools
lib = os.path.realpath(sys.argv[1])
assert all(os.path.realpath(m.__file__).startswith(lib + os.sep) for m in (gcs, gcs.storage, gcs.slice_tools)), gcs.__file__
from gcs.storage import *
from gcs import storage as s
d = [[None, 1, 2], [3, None, 4]]
a = [s.Strided.fromobject(d), s.COO.fromobject(d), s.FlatCOO.fromobject(d), s.CSR.fromobject(d), s.DM.fromobject(d, storage_class=s.COO)]
print([[x[i, j] for i in range(2) for j in range(3)] for x in a], [list(x[::-1, 1:].elements()) for x in a],
      [str(x) for x in a[:4]], gcs.slice_tools.reduced(slice(5, None, -2), 9), gcs.__version__)
'''


def missing(ctx):
    if importlib.util.find_spec('setuptools') is None:
        ctx.event('no_setuptools')
        return True


def tool(sc, root, *args, cwd=None, script='setup.py', exe=()):
    p = subprocess.run([sys.executable, *exe, os.path.join(root, script), *args], cwd=cwd or root, env=dict(sc.env, CONDA_BUILD='1'),
                       stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=200)
    if p.returncode:
        raise core.Violation('%s %s failed' % (script, args[0]), output=p.stdout.decode('utf-8', 'replace')[-1500:])
    return p.stdout.decode('utf-8', 'replace')


def package_files(root):
    out = {}
    for d, dirs, files in os.walk(os.path.join(root, 'gcs')):
        dirs[:] = [x for x in dirs if x != '__pycache__' and (x != 'tests' or os.path.exists(os.path.join(d, x, '__init__.py')))]
        for f in files:
            if f.endswith('.py'):
                p = os.path.join(d, f)
                with open(p, 'rb') as g:
                    out[os.path.relpath(p, root)] = g.read()
    return out


def tracked(h):
    """What a user sees of the checkout: the tracked files with contents and modes, and git's opinion of them."""
    out = {}
    for f in h.git('ls-files', '-z').split('\0'):
        p = os.path.join(h.root, f)
        if f and os.path.lexists(p):
            st = os.lstat(p)
            with open(p, 'rb') as g:
                out[f] = (st.st_mode, g.read())
        elif f:
            out[f] = None
    out['git status'] = h.git('status', '--porcelain', '--untracked-files=no')
    out['git head'] = h.git('rev-parse', 'HEAD')
    out['git refs'] = h.git('for-each-ref')
    return out


def compare(ctx, before, after, what):
    ctx.event('checkouts_compared')
    bad = sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k))
    ctx.check(not bad, 'the checkout is not as it was: ' + what, changed=bad,
              now=[str(after.get(k))[-600:] for k in bad[:2]])


def exercise(sc, lib):
    p = subprocess.run([sys.executable, '-c', EXERCISE, lib], cwd=sc.home, env=sc.env, stdin=subprocess.DEVNULL,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=100)
    if p.returncode:
        raise core.Violation('the built package cannot be used', stderr=p.stderr.decode('utf-8', 'replace')[-1200:])
    return p.stdout.decode()


def judge_lib(ctx, sc, root, lib, full, answer):
    want, got = package_files(root), package_files(lib)
    ctx.eq(sorted(got), sorted(want), 'modules in the built package')
    for f in want:
        if f != 'gcs/_version.py':
            ctx.event('modules_compared')
            ctx.check(got[f] == want[f], 'module differs from its source', module=f)
    q = sc.query(lib)
    ctx.eq(q['runtime_full'], full, 'version of the built package')
    ctx.eq(exercise(sc, lib), answer, 'what the built package computes')
    ctx.event('imported')


def start(ctx, rng, sc, name):
    h = History(sc, rng, os.path.join(sc.dir, name))
    h.init()
    shutil.copytree(os.path.join(core.REPO, 'gcs'), os.path.join(h.root, 'gcs'), dirs_exist_ok=True,
                    ignore=shutil.ignore_patterns('__pycache__', '*.pyc'))
    shutil.copyfile(os.path.join(core.REPO, '.gitignore'), os.path.join(h.root, '.gitignore'))
    tags = TAGS[:]
    rng.shuffle(tags)
    for _ in range(rng.randint(1, 3)):
        h.commit()
        if rng.random() < .4:
            t = tags.pop()
            h.git('tag', t)
            h.tags[h.head] = [t]
    return h


def dirty(h, rng):
    r = rng.random()
    if r < .4:
        name = rng.choice(['setup.py', 'gcs/storage.py', 'gcs/__init__.py', 'README.md'])
        with open(os.path.join(h.root, name), 'a') as f:
            f.write('# changed\n' if name.endswith('.py') else '\n')
    elif r < .6:
        with open(os.path.join(h.root, 'gcs', 'extra.py'), 'w') as f:
            f.write('x = 1\n')
        h.git('add', 'gcs/extra.py')
    h.dirty = bool(h.git('diff', '--name-only', 'HEAD'))


def build(ctx, rng, idx):
    if missing(ctx):
        return
    sc = Scratch()
    try:
        h = start(ctx, rng, sc, rng.choice(['proj', 'my proj', 'gcs-7.5', 'pr\xf6j']))
        if rng.random() < .4:
            dirty(h, rng)
        root = h.root
        q = sc.query(root)
        full = q['build_full']
        ctx.eq(q['runtime_full'], full, 'build-time and run-time versions disagree')
        answer = exercise(sc, root)
        before = tracked(h)
        ctx.describe(version=full['version'], dirty=h.dirty)
        kinds = ['version', 'build_py', 'build', 'sdist', 'egg_info', 'wheel', 'install']
        rng.shuffle(kinds)
        for n, kind in enumerate(kinds[:rng.randint(2, 4)] if 'sdist' in kinds[:2] else ['sdist'] + kinds[:2]):
            out = os.path.join(sc.dir, 'out-%d' % n)
            os.mkdir(out)
            ctx.step(kind)
            ctx.event('builds')
            cwd = rng.choice([None, None, sc.home])
            lib = None
            if kind == 'version':
                text = tool(sc, root, 'version', cwd=cwd)
                got = dict(re.findall(r'^ ?(Version|full-revisionid|dirty|date): (.*)$', text, re.M))
                ctx.eq(got, {'Version': full['version'], 'full-revisionid': str(full['full-revisionid']),
                             'dirty': str(full['dirty']), 'date': str(full['date'])}, 'what setup.py version reports')
            elif kind == 'build_py':
                lib = out
                tool(sc, root, 'build_py', '--build-lib', lib, cwd=cwd)
            elif kind == 'build':
                lib = os.path.join(out, 'lib')
                tool(sc, root, '-q', 'build', '--build-base', out, '--build-lib', lib, cwd=cwd)
            elif kind == 'egg_info':
                tool(sc, root, '-q', 'egg_info', cwd=cwd)
            elif kind == 'wheel':
                if importlib.util.find_spec('wheel') is None and importlib.util.find_spec('setuptools.command.bdist_wheel') is None:
                    ctx.event('no_wheel')
                    continue
                tool(sc, root, '-q', 'bdist_wheel', '-d', out, '-b', os.path.join(sc.dir, 'wb%d' % n), cwd=cwd)
                name, = os.listdir(out)
                lib = os.path.join(sc.dir, 'unwheeled-%d' % n)
                with zipfile.ZipFile(os.path.join(out, name)) as z:
                    z.extractall(lib)
                shutil.rmtree(os.path.join(root, 'build'), ignore_errors=True)
            elif kind == 'install':
                tool(sc, root, '-q', 'install', '--root', out, '--single-version-externally-managed', cwd=cwd)
                found = [d for d, dirs, files in os.walk(out) if 'gcs' in dirs]
                ctx.eq(len(found), 1, 'installed packages', found=found)
                lib = found[0]
                shutil.rmtree(os.path.join(root, 'build'), ignore_errors=True)
            else:
                tool(sc, root, '-q', 'sdist', '-d', out, cwd=cwd)
                name, = os.listdir(out)
                un = os.path.join(sc.dir, 'unpacked-%d' % n)
                os.mkdir(un)
                sc.run('tar', 'xf', os.path.join(out, name), '-C', un)
                src = os.path.join(un, os.listdir(un)[0])
                ctx.event('sdists')
                judge_lib(ctx, sc, root, src, full, answer)
                for f in ('setup.py', 'versioneer.py'):
                    with open(os.path.join(src, f), 'rb') as g, open(os.path.join(root, f), 'rb') as g2:
                        ctx.check(g.read() == g2.read(), 'file of the source distribution differs', file=f)
                ctx.eq(sc.query(src)['build_full'], full, 'build-time version of the source distribution')
                lib = os.path.join(sc.dir, 'lib-of-unpacked-%d' % n)
                was = package_files(src)
                tool(sc, src, 'build_py', '--build-lib', lib)
                ctx.eq(package_files(src) == was, True, 'building changed an unpacked source distribution')
                ctx.event('built_again')
            if lib:
                judge_lib(ctx, sc, root, lib, full, answer)
            compare(ctx, before, tracked(h), kind)
            q2 = sc.query(root)
            ctx.eq((q2['runtime_full'], q2['build_full']), (full, full), 'version of the checkout after ' + kind)
        ctx.state(full['version'].split('g')[0], h.dirty)
        ctx.sig = (idx, full['version'])
    finally:
        sc.close()


def setup(ctx, rng, idx):
    """versioneer.py setup makes what the versions are made with; again, or anew."""
    sc = Scratch()
    try:
        h = start(ctx, rng, sc, 'proj')
        gone = [f for f in ('gcs/_version.py', 'MANIFEST.in', '.gitattributes') if rng.random() < .3]
        for f in gone:
            os.remove(os.path.join(h.root, f))
        if gone:
            h.commit('without')
        ctx.describe(gone=gone)
        for n in range(2):
            tool(sc, h.root, 'setup', script='versioneer.py', exe=('-W', 'ignore'))
            now = {f: open(os.path.join(h.root, f), 'rb').read() for f in ('gcs/_version.py', 'gcs/__init__.py', 'MANIFEST.in', '.gitattributes')
                   if os.path.exists(os.path.join(h.root, f))}
            ctx.event('setups')
            if n:
                ctx.event('setups_repeated')
                bad = [f for f in now if now[f] != was.get(f)]
                ctx.check(not bad, 'a second set-up changes files', files=bad)
            was = now
        h.dirty = bool(h.git('diff', '--name-only', 'HEAD'))
        for again in range(2):
            q = sc.query(h.root)
            ctx.eq(q['build_full'], q['runtime_full'], 'build-time and run-time versions disagree after the set-up')
            ctx.eq(q['runtime'], q['runtime_full']['version'], 'gcs.__version__')
            judge_full(ctx, h, q['runtime_full'], 'after the set-up')
            if again or not h.dirty and rng.random() < .5:
                break
            h.commit('set up')
            if rng.random() < .6:
                h.git('tag', 'v11.0')
                h.tags[h.head] = ['v11.0']
        dst = os.path.join(sc.dir, 'exported')
        os.mkdir(dst)
        tar = os.path.join(sc.dir, 'a.tar')
        h.git('archive', '-o', tar, 'HEAD')
        sc.run('tar', 'xf', tar, '-C', dst)
        full = sc.query(dst)['runtime_full']
        if h.dirty or h.head not in h.tags:
            return
        ctx.eq(full['version'], h.tags[h.head][0][1:], 'version of an export after the set-up')
        ctx.eq(full['full-revisionid'], h.head, 'revision of an export after the set-up')
    finally:
        ctx.sig = (idx,)
        sc.close()


FREEZE = r'''
import sys, os, types, json
sys.dont_write_bytecode = True
root, kind, copy = sys.argv[1:4]
os.chdir(root)
sys.path.insert(0, root)
import setuptools
from setuptools import Command

class freeze(Command):
    user_options = []
    def initialize_options(self): pass
    def finalize_options(self): pass
    def run(self):
        # what would be frozen
        import shutil
        shutil.copytree('gcs', os.path.join(copy, 'gcs'))
names = {'build_exe': ('cx_Freeze', 'cx_Freeze.dist', 'build_exe'), 'py2exe': ('py2exe', 'py2exe.distutils_buildexe', 'py2exe')}
a, b, c = names[kind]
sys.modules[a], sys.modules[b] = types.ModuleType(a), types.ModuleType(b)
setattr(sys.modules[b], c, freeze)
sys.modules[a].__path__ = []
sys.argv = ['setup.py', '-q', kind]
__file__ = os.path.abspath('setup.py')
exec(compile(open('setup.py').read(), 'setup.py', 'exec'))
'''


def freeze(ctx, rng, idx):
    """Freezing (stand-ins for cx_Freeze and py2exe) packs the version and puts the version file back."""
    if missing(ctx):
        return
    sc = Scratch()
    try:
        h = start(ctx, rng, sc, rng.choice(['proj', 'my proj']))
        if rng.random() < .3:
            dirty(h, rng)
        root = h.root
        q = sc.query(root)
        full = q['build_full']
        answer = exercise(sc, root)
        before = tracked(h)
        kind = rng.choice(['build_exe', 'py2exe'])
        ctx.describe(kind=kind, version=full['version'])
        for n in range(rng.randint(1, 2)):
            lib = os.path.join(sc.dir, 'frozen-%d' % n)
            os.mkdir(lib)
            p = subprocess.run([sys.executable, '-c', FREEZE, root, kind, lib], cwd=sc.home, env=dict(sc.env, CONDA_BUILD='1'),
                               stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=200)
            if p.returncode:
                raise core.Violation('freezing failed', output=p.stdout.decode('utf-8', 'replace')[-1500:])
            judge_lib(ctx, sc, root, lib, full, answer)
            ctx.event('frozen')
            after = tracked(h)
            for x in (before, after):       # (is made anew)
                x.pop('gcs/_version.py', None)
                x.pop('git status', None)
            compare(ctx, before, after, kind)
            h.dirty = bool(h.git('diff', '--name-only', 'HEAD'))
            q = sc.query(root)
            ctx.eq(q['build_full'], q['runtime_full'], 'build-time and run-time versions disagree after ' + kind)
            judge_full(ctx, h, q['runtime_full'], 'after ' + kind)
            full = q['build_full']
            answer = exercise(sc, root)
        ctx.sig = (idx, kind)
    finally:
        sc.close()


WORKLOADS = {
    'freeze': (freeze, {'quick': 16, 'thorough': 200}),
    'build': (build, {'quick': 28, 'thorough': 500}),
    'setup': (setup, {'quick': 24, 'thorough': 300}),
}
