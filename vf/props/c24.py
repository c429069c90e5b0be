"""C24: the reported version identifies the source state."""
import contextlib
import importlib.util
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

from .. import core

RULE = ('a case is a generated git history (commits, branches, merges, lightweight / annotated / foreign tags, staged, '
        'unstaged and untracked changes) in a scratch directory, queried at run time and build time at several points, '
        'and its archives and plain copies; or a batch of version pieces rendered in every style; non-trivial when a '
        'version was judged')
REQUIRED_EVENTS = ('checkout_versions', 'archive_versions', 'plain_versions', 'renderings', 'dirty_states', 'untagged_states', 'merges',
                   'signed_commits', 'foreign_environments', 'unpacked_elsewhere')
ASSUMPTIONS = ['git 2.x of the sandbox is the only version control system driven', 'one release tag per commit; where two '
               'release tags are equally near nothing is claimed']
CHUNK = 4
CASE_ALARM = 240
FILES = ('setup.cfg', 'setup.py', 'versioneer.py', '.gitattributes', 'gcs/__init__.py', 'gcs/_version.py',
         'MANIFEST.in', 'README.md', 'gcs_basics.py')
STYLES = ('pep440', 'pep440-pre', 'pep440-post', 'pep440-old', 'git-describe', 'git-describe-long', 'default', '')

QUERY = r'''
import sys, json, os, io, contextlib
sys.dont_write_bytecode = True
root = os.path.realpath(sys.argv[2])
sys.path.insert(0, root)
sys.argv[0] = os.path.join(root, 'setup.py')
out = {}
err = io.StringIO()
real = sys.stdout
sys.stdout = err
try:
    import gcs
    out['runtime'] = gcs.__version__
    out['runtime_full'] = gcs._version.get_versions()
    out['runtime_file'] = os.path.realpath(gcs._version.__file__)
    if os.path.exists(os.path.join(root, 'versioneer.py')):
        import versioneer
        out['build_full'] = versioneer.get_versions()
        out['build'] = versioneer.get_version()
    out['styles'] = {}
    for name, m in (('runtime', gcs._version), ('build', sys.modules.get('versioneer'))):
        if m is not None and hasattr(m, 'git_pieces_from_vcs') and hasattr(m, 'render') and os.path.exists(os.path.join(root, '.git')):
            try:
                pieces = m.git_pieces_from_vcs('v', root, False)
            except m.NotThisMethod:
                continue
            out['styles'][name] = {s: m.render(pieces, s)['version'] for s in json.loads(sys.argv[1])}
finally:
    sys.stdout = real
print(json.dumps(out))
'''


class Scratch:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix='vf-c24-')
        self.home = os.path.join(self.dir, 'home')
        os.mkdir(self.home)
        self.t = 1600000000
        self.env = {'PATH': os.environ.get('PATH', '/usr/bin:/bin'), 'HOME': self.home, 'LC_ALL': 'C',
                    'GIT_CONFIG_NOSYSTEM': '1', 'GIT_CEILING_DIRECTORIES': self.dir,
                    'GIT_AUTHOR_NAME': 'a', 'GIT_AUTHOR_EMAIL': 'a@x', 'GIT_COMMITTER_NAME': 'c',
                    'GIT_COMMITTER_EMAIL': 'c@x', 'PYTHONDONTWRITEBYTECODE': '1'}

    def run(self, *cmd, cwd=None, env=None, ok=True):
        p = subprocess.run(cmd, cwd=cwd, env=dict(self.env, **(env or {})), stdin=subprocess.DEVNULL,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
        if ok and p.returncode:
            raise core.Inconclusive('%r failed: %s' % (cmd, p.stderr.decode('utf-8', 'replace')[-300:]))
        return p.stdout.decode('utf-8', 'replace').strip()

    def query(self, root, path=None, cwd=None, extra=()):
        p = subprocess.run([sys.executable, '-c', QUERY, json.dumps(STYLES), root], cwd=cwd or root,
                           env=dict(self.env, **dict(extra, **({'PATH': path} if path is not None else {}))), stdin=subprocess.DEVNULL,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=200)
        if p.returncode:
            raise core.Violation('asking for the version failed', stderr=p.stderr.decode('utf-8', 'replace')[-1200:])
        return json.loads(p.stdout.decode().strip().splitlines()[-1])

    def elsewhere(self):
        """A git checkout of something else that is at another release."""
        d = os.path.join(self.dir, 'elsewhere')
        if not os.path.isdir(d):
            os.mkdir(d)
            self.run('git', 'init', '-q', '-b', 'main', cwd=d)
            self.run('git', 'commit', '-q', '--allow-empty', '-m', 'x', cwd=d)
            self.run('git', 'tag', 'v99.9', cwd=d)
        return d

    def close(self):
        assert os.path.basename(self.dir).startswith('vf-c24-')
        shutil.rmtree(self.dir, ignore_errors=True)


def copy_project(dst):
    for f in FILES:
        src = os.path.join(core.REPO, f)
        if os.path.exists(src):
            os.makedirs(os.path.dirname(os.path.join(dst, f)), exist_ok=True)
            shutil.copyfile(src, os.path.join(dst, f))


# ---------------------------------------------------------------- expectation
def pod(tag):
    return '.' if '+' in tag else '+'


def expect(style, tag, dist, short, dirty):
    """The documented formats; `short` is the abbreviated hash."""
    if style in ('', 'default'):
        style = 'pep440'
    if style == 'pep440':
        if tag is None:
            return '0+untagged.%d.g%s%s' % (dist, short, '.dirty' if dirty else '')
        if dist or dirty:
            return '%s%s%d.g%s%s' % (tag, pod(tag), dist, short, '.dirty' if dirty else '')
        return tag
    if style == 'pep440-pre':
        if tag is None:
            return '0.post.dev%d' % dist
        return tag + ('.post.dev%d' % dist if dist else '')
    if style == 'pep440-post':
        if tag is None:
            return '0.post%d%s+g%s' % (dist, '.dev0' if dirty else '', short)
        if dist or dirty:
            return '%s.post%d%s%sg%s' % (tag, dist, '.dev0' if dirty else '', pod(tag), short)
        return tag
    if style == 'pep440-old':
        if tag is None:
            return '0.post%d%s' % (dist, '.dev0' if dirty else '')
        return tag + ('.post%d%s' % (dist, '.dev0' if dirty else '') if dist or dirty else '')
    if style == 'git-describe':
        head = short if tag is None else tag + ('-%d-g%s' % (dist, short) if dist else '')
        return head + ('-dirty' if dirty else '')
    head = short if tag is None else '%s-%d-g%s' % (tag, dist, short)
    return head + ('-dirty' if dirty else '')


SETTINGS = [('color.ui', 'always'), ('core.abbrev', '30'), ('log.showSignature', 'true'), ('log.date', 'relative'),
            ('tag.sort', '-creatordate'), ('core.quotePath', 'false'), ('log.decorate', 'full'), ('core.pager', 'false'),
            ('status.showUntrackedFiles', 'all'), ('format.pretty', 'oneline'), ('log.showRoot', 'false'),
            ('core.fsmonitor', 'false'), ('versionsort.suffix', '-rc')]
SIGNER = """#!/bin/sh
# stands in for gpg: signs and approves anything
for a; do case "$a" in --verify) v=1;; esac; done
cat >/dev/null
if [ "$v" ]; then
    echo "[GNUPG:] GOODSIG 0123456789ABCDEF a <a@x>"
    echo "gpg: Signature made in" >&2
    echo "gpg: Good signature from a" >&2
else
    echo "[GNUPG:] SIG_CREATED D 1 8 00 1600000000 0123456789ABCDEF" >&2
    printf '%s\\n' '-----BEGIN PGP SIGNATURE-----' '' 'abc' '-----END PGP SIGNATURE-----'
fi
"""


class History:
    """The oracle's record of the history: commits with parents, tags, dates, dirtiness."""

    def __init__(self, sc, rng, root):
        self.sc, self.rng, self.root = sc, rng, root
        self.parents, self.date, self.tags = {}, {}, {}
        self.head = None
        self.n = 0
        self.dirty = False

    def git(self, *a, **kw):
        return self.sc.run('git', '-c', 'log.showSignature=false', *a, cwd=self.root, **kw)

    def init(self):
        os.makedirs(self.root)
        copy_project(self.root)
        self.git('init', '-q', '-b', 'main')
        if self.rng.random() < .2:
            self.git('config', 'core.abbrev', str(self.rng.choice([4, 12, 20])))
        # settings of the user's
        for k, v in SETTINGS:
            if self.rng.random() < .06:
                self.git('config', '--global', k, v)
        self.signed = self.rng.random() < .15
        if self.signed:
            signer = os.path.join(self.sc.dir, 'signer')
            with open(signer, 'w') as f:
                f.write(SIGNER)
            os.chmod(signer, 0o755)
            self.git('config', 'gpg.program', signer)
            self.git('config', 'commit.gpgSign', 'true')
            self.git('config', 'log.showSignature', 'true')

    def commit(self, msg='c', merge=None):
        rng = self.rng
        self.n += 1
        self.sc.t += rng.randint(1, 10 ** 6)
        tz = rng.choice(['+0000', '+0200', '-0730'])
        with open(os.path.join(self.root, 'file%d.txt' % rng.randint(0, 2)), 'a') as f:
            f.write('%d\n' % self.n)
        self.git('add', '-A')
        when = '%d %s' % (self.sc.t, tz)
        self.git('commit', '-q', '--allow-empty', '-m', '%s %d' % (msg, self.n),
                 env={'GIT_COMMITTER_DATE': when, 'GIT_AUTHOR_DATE': '1500000000 +0000'})
        sha = self.git('rev-parse', 'HEAD')
        self.parents[sha] = [self.head] if self.head else []
        self.head = sha
        self.note(sha)
        self.dirty = False
        return sha

    def note(self, sha):
        secs, tz = self.git('show', '-s', '--date=raw', '--format=%cd', sha).split()
        import datetime
        off = (1 if tz[0] == '+' else -1) * (int(tz[1:3]) * 60 + int(tz[3:]))
        t = datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=int(secs), minutes=off)
        self.date[sha] = t.strftime('%Y-%m-%dT%H:%M:%S') + tz

    def ancestors(self, sha):
        seen, todo = set(), [sha]
        while todo:
            s = todo.pop()
            if s in seen:
                continue
            seen.add(s)
            todo += self.parents[s]
        return seen

    def nearest(self):
        """(tag, distance) of the nearest release tag; None when ambiguous."""
        anc = self.ancestors(self.head)
        cand = [(len(anc - self.ancestors(s)), t) for s, ts in self.tags.items() if s in anc for t in ts]
        if not cand:
            return None, len(anc)
        cand.sort()
        if len(cand) > 1 and cand[0][0] == cand[1][0]:
            return 'ambiguous', None
        return cand[0][1], cand[0][0]


TAGS = ['v0.1', 'v1.0', 'v1.0.1', 'v2.0rc1', 'v2.0-rc-2', 'v1.0+local', 'v3', 'v10.11.12', 'v1-5-gdeadbee', 'v0.9-dirty',
        'v4.0+a.b', 'v5_x', 'v2020.01', 'v1.0-2']
FOREIGN = ['release', 'rel-1.0', 'x1', 'nightly', '1.0', 'beta-2', 'wip']


def judge_full(ctx, h, full, what):
    tag, dist = h.nearest()
    if tag == 'ambiguous':
        ctx.event('ambiguous')
        return None
    ctx.eq(full['full-revisionid'], h.head, what + ': full revision')
    ctx.eq(full['dirty'], h.dirty, what + ': dirty')
    ctx.eq(full['error'], None, what + ': error')
    ctx.eq(full['date'], h.date[h.head], what + ': date')
    v = full['version']
    name = None if tag is None else tag[1:]
    shorts = [h.head[:k] for k in range(4, 41)]
    ctx.check(any(v == expect('pep440', name, dist, s, h.dirty) for s in shorts), what + ': version', got=v,
              want=expect('pep440', name, dist, h.head[:7], h.dirty), dirty=h.dirty)
    return name, dist, shorts


def judge_checkout(ctx, h, root=None, cwd=None):
    extra = {}
    if h.rng.random() < .2:
        # as within a hook of another repository
        d = h.sc.elsewhere()
        extra = {k: v for k, v in (('GIT_DIR', d + '/.git'), ('GIT_WORK_TREE', d), ('GIT_INDEX_FILE', d + '/.git/index'))
                 if h.rng.random() < .5}
        ctx.step('environment', sorted(extra))
        ctx.event('foreign_environments', bool(extra))
    q = h.sc.query(root or h.root, cwd=cwd, extra=extra)
    ctx.event('checkout_versions')
    if h.signed:
        ctx.event('signed_commits')
    if h.dirty:
        ctx.event('dirty_states')
    ctx.eq(q['runtime'], q['runtime_full']['version'], 'gcs.__version__')
    ctx.eq(q['build_full'], q['runtime_full'], 'build-time and run-time versions disagree')
    ctx.eq(q['build'], q['runtime'], 'build-time and run-time versions disagree')
    r = judge_full(ctx, h, q['runtime_full'], 'checkout')
    if r:
        name, dist, shorts = r
        if name is None:
            ctx.event('untagged_states')
        for src, styles in q['styles'].items():
            for style, v in styles.items():
                ctx.event('renderings')
                ctx.check(any(v == expect(style, name, dist, s, h.dirty) for s in shorts), 'version in style %r (%s)' % (style, src),
                          got=v, want=expect(style, name, dist, h.head[:7], h.dirty))
    ctx.state(q['runtime'].split('g')[0], h.n, h.dirty)
    return q


def judge_archive(ctx, h):
    sc = h.sc
    dst = tempfile.mkdtemp(prefix='x', dir=sc.dir)
    tar = os.path.join(sc.dir, 'a.tar')
    h.git('archive', '-o', tar, 'HEAD')
    sc.run('tar', 'xf', tar, '-C', dst)
    if h.rng.random() < .2:     # unpacked in a checkout of something else
        shutil.move(dst, os.path.join(sc.elsewhere(), 'x'))
        dst = os.path.join(sc.elsewhere(), 'x')
        ctx.event('unpacked_elsewhere')
    q = sc.query(dst, cwd=sc.elsewhere() if h.rng.random() < .3 else None)
    ctx.event('archive_versions')
    tags = h.tags.get(h.head, [])
    full = q['runtime_full']
    ctx.eq(full, q['build_full'], 'archive: build-time and run-time versions disagree')
    ctx.eq(q['runtime'], full['version'], 'archive: gcs.__version__')
    if tags:
        ctx.check(full['version'] in [t[1:] for t in tags], 'archive of a release', got=full['version'], want=tags)
        ctx.eq(full['date'], h.date[h.head], 'archive: date')
        ctx.eq(full['error'], None, 'archive: error')
    else:
        ctx.check('unknown' in full['version'], 'archive without a release tag', got=full)
    ctx.eq(full['full-revisionid'], h.head, 'archive: full revision')
    ctx.check(not full['dirty'], 'archive: dirty', got=full)
    # what a distribution would carry: the version file written at build time
    return dst


def judge_tags(ctx, h):
    """An archive of a commit with several release tags: one of them, whoever asks and whenever."""
    sc = h.sc
    more = [t for t in TAGS if not any(t in ts for ts in h.tags.values())]
    for t in h.rng.sample(more, min(len(more), 4)):
        h.git('tag', t)
        h.tags.setdefault(h.head, []).append(t)
    dst = tempfile.mkdtemp(prefix='t', dir=sc.dir)
    tar = os.path.join(sc.dir, 't.tar')
    h.git('archive', '-o', tar, 'HEAD')
    sc.run('tar', 'xf', tar, '-C', dst)
    seen = [sc.query(dst, extra={'PYTHONHASHSEED': s}) for s in ('0', str(h.rng.randint(1, 10 ** 9)), str(h.rng.randint(1, 10 ** 9)))]
    ctx.event('several_tags')
    for q in seen:
        ctx.check(q['runtime'] in [t[1:] for t in h.tags[h.head]], 'archive of a commit with several release tags', got=q['runtime'],
                  want=h.tags[h.head])
        ctx.eq((q['runtime_full'], q['build_full']), (seen[0]['runtime_full'],) * 2,
               'archive of a commit with several release tags: two askings disagree')


def judge_written(ctx, h, q):
    """The version file a build writes reports the version it was built from."""
    sc = h.sc
    dst = tempfile.mkdtemp(prefix='w', dir=sc.dir)
    copy_project(dst)
    code = ("import sys,os,json; sys.dont_write_bytecode=True; sys.path.insert(0, os.getcwd()); import versioneer as v\n"
            "if hasattr(v, 'write_to_version_file'):\n"
            "    sys.stdout = sys.stderr; v.write_to_version_file('gcs/_version.py', json.loads(sys.argv[1]))")
    sc.run(sys.executable, '-c', code, json.dumps(q['build_full']), cwd=dst)
    q2 = sc.query(dst)
    ctx.event('written_versions')
    ctx.eq(q2['runtime_full'], q['build_full'], 'version read from a written version file')
    ctx.eq(q2['build_full'], q['build_full'], 'build-time version read from a written version file')


SETUP = '''
import sys, json, os
sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())
sys.argv = ['setup.py'] + json.loads(sys.argv[1])
__file__ = os.path.abspath('setup.py')
exec(compile(open('setup.py').read(), 'setup.py', 'exec'))
'''


def setup_py(sc, root, *args):
    p = subprocess.run([sys.executable, '-c', SETUP, json.dumps(args)], cwd=root, env=dict(sc.env, CONDA_BUILD='1'),
                       stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=200)
    if p.returncode:
        raise core.Violation('setup.py %s failed' % args[0], stderr=p.stderr.decode('utf-8', 'replace')[-1500:])
    return p.stdout.decode('utf-8', 'replace')


def judge_build(ctx, h, q):
    """What setup.py reports, builds and packs identifies the same state."""
    if importlib.util.find_spec('setuptools') is None:
        ctx.event('no_setuptools')
        return
    sc = h.sc
    full = q['build_full']
    # in a copy, so that the checkout itself stays as it is
    root = os.path.join(sc.dir, 'copy-of-project')
    shutil.rmtree(root, ignore_errors=True)
    shutil.copytree(h.root, root, symlinks=True)
    out = setup_py(sc, root, 'version')
    got = dict(re.findall(r'^ ?(Version|full-revisionid|dirty|date): (.*)$', out, re.M))
    ctx.eq(got, {'Version': full['version'], 'full-revisionid': str(full['full-revisionid']), 'dirty': str(full['dirty']),
                 'date': str(full['date'])}, 'what setup.py version reports')
    lib = os.path.join(sc.dir, 'lib')
    setup_py(sc, root, 'build_py', '--build-lib', lib)
    if os.path.exists(os.path.join(lib, 'gcs', '_version.py')):
        ctx.event('built_versions')
        q2 = sc.query(lib)
        ctx.eq(q2['runtime_full'], full, 'version of the built package')
        ctx.eq(q2['runtime'], full['version'], 'version of the built package')
    dist = os.path.join(sc.dir, 'dist')
    setup_py(sc, root, '-q', 'sdist', '-d', dist)
    tars = sorted(os.listdir(dist))
    ctx.eq(len(tars), 1, 'source distributions built', names=tars)
    un = os.path.join(sc.dir, 'unpacked')
    os.mkdir(un)
    sc.run('tar', 'xf', os.path.join(dist, tars[0]), '-C', un)
    src = os.path.join(un, os.listdir(un)[0])
    ctx.event('sdist_versions')
    q3 = sc.query(src)
    ctx.eq(q3['runtime_full'], full, 'version of the source distribution')
    ctx.eq(q3['build_full'], full, 'build-time version of the source distribution')
    # and of what is built from the source distribution
    lib2 = os.path.join(sc.dir, 'lib2')
    setup_py(sc, src, 'build_py', '--build-lib', lib2)
    ctx.eq(sc.query(lib2)['runtime_full'], full, 'version of the package built from the source distribution')


def history(ctx, rng, idx):
    sc = Scratch()
    try:
        h = History(sc, rng, os.path.join(sc.dir, rng.choice(['proj', 'proj', 'my proj', 'gcs-7.5', "a'b", 'pr\xf6j'])))
        h.init()
        tags = TAGS[:]
        rng.shuffle(tags)
        for _ in range(rng.randint(1, 4)):
            h.commit()
            ctx.step('commit')
        branches = {}
        for _ in range(rng.randint(3, 9)):
            r = rng.random()
            if r < .25:
                h.commit()
                ctx.step('commit')
            elif r < .42 and tags and h.head not in h.tags:
                t = tags.pop()
                if rng.random() < .5:
                    h.git('tag', t)
                else:
                    h.git('tag', '-a', '-m', 'x', t, env={'GIT_COMMITTER_DATE': '%d +0000' % sc.t})
                h.tags.setdefault(h.head, []).append(t)
                ctx.step('tag', t)
            elif r < .5:
                t = rng.choice(FOREIGN)
                h.git('tag', '-f', t)
                ctx.step('foreign tag', t)
            elif r < .58:
                # an untracked file is not a modification
                with open(os.path.join(h.root, 'untracked-%d' % rng.randint(0, 9)), 'w') as f:
                    f.write('x')
                ctx.step('untracked')
            elif r < .74:
                how = rng.random()
                if how < .4:
                    with open(os.path.join(h.root, 'setup.py'), 'a') as f:
                        f.write('# changed\n')
                elif how < .7:
                    with open(os.path.join(h.root, 'staged.txt'), 'a') as f:
                        f.write('x')
                    h.git('add', 'staged.txt')
                else:
                    for k in range(3):      # a tracked file that versions do not depend on
                        p = os.path.join(h.root, 'file%d.txt' % k)
                        if os.path.exists(p):
                            os.remove(p)
                            break
                h.dirty = bool(h.git('diff', '--name-only', 'HEAD'))
                ctx.step('modify', h.dirty)
            elif r < .8 and h.dirty:
                h.git('reset', '-q', '--hard')
                h.dirty = False
                ctx.step('reset')
            elif r < .88 and not h.dirty:
                name = 'topic' + 'abcdefgh'[len(branches) % 8]
                if name not in branches:
                    h.git('checkout', '-q', '-b', name)
                    branches[name] = h.head
                    h.commit('topic')
                    ctx.step('branch', name)
            elif not h.dirty and len(h.parents) > 2:
                # detach somewhere in the past, or merge
                if rng.random() < .5:
                    sha = rng.choice(sorted(h.parents))
                    h.git('clean', '-qfd')
                    h.git('checkout', '-q', sha)
                    h.head = sha
                    ctx.step('detach')
                else:
                    others = sorted(set(h.parents) - h.ancestors(h.head))
                    if others:
                        other = rng.choice(others)
                        sc.t += 100
                        h.git('clean', '-qfd')
                        h.git('merge', '-q', '-s', 'ours', '--no-ff', '-m', 'merge', other,
                              env={'GIT_COMMITTER_DATE': '%d +0000' % sc.t})
                        sha = h.git('rev-parse', 'HEAD')
                        h.parents[sha] = [h.head, other]
                        h.head = sha
                        h.note(sha)
                        ctx.step('merge')
            if rng.random() < .35:
                judge_checkout(ctx, h)
        if rng.random() < .3:
            h.git('gc', '-q') if rng.random() < .3 else h.git('pack-refs', '--all')
        q = judge_checkout(ctx, h)
        ctx.describe(tags=h.tags, head=h.head, dirty=h.dirty, version=q['runtime'])
        if rng.random() < .5:       # asked from within another checkout
            ctx.step('from elsewhere')
            ctx.eq(judge_checkout(ctx, h, cwd=sc.elsewhere()), q, 'version asked from another directory')
            ctx.event('asked_elsewhere')
        judge_archive(ctx, h)
        if rng.random() < .5:
            judge_written(ctx, h, q)
        if idx % 4 == 0 and re.fullmatch(r'\d+(\.\d+)*(rc\d+)?(\+[a-z0-9.]+)?', q['runtime']):     # (PEP 440)
            judge_build(ctx, h, q)
        if rng.random() < .3:       # a second work tree of the same repository
            wt = os.path.join(sc.dir, 'wt')
            h.git('worktree', 'add', '-q', '--detach', wt, 'HEAD')
            was, h.dirty = h.dirty, False
            judge_checkout(ctx, h, wt)
            h.dirty = was
        if rng.random() < .4:
            judge_tags(ctx, h)
        ctx.sig = (idx, q['runtime'])
    finally:
        sc.close()


def merges(ctx, rng, idx):
    """Lines of development that are merged: the nearest release tag may be on any of them."""
    sc = Scratch()
    try:
        h = History(sc, rng, os.path.join(sc.dir, 'proj'))
        h.init()
        tags = TAGS[:]
        rng.shuffle(tags)

        def go(sha):
            h.git('checkout', '-q', '--detach', sha)
            h.head = sha

        def line(n, tagged):
            at = rng.randrange(n) if n and tagged else -1
            for k in range(n):
                h.commit()
                if k == at:
                    t = tags.pop()
                    h.git('tag', t) if rng.random() < .5 else h.git('tag', '-a', '-m', 'x', t, env={'GIT_COMMITTER_DATE': '%d +0000' % sc.t})
                    h.tags.setdefault(h.head, []).append(t)
            ctx.step('line', n, tagged, h.head)
        line(rng.randint(1, 3), rng.random() < .7)
        for _ in range(rng.randint(1, 3)):
            fork = h.head
            line(rng.randint(1, 4), rng.random() < .6)
            side = h.head
            go(fork)
            line(rng.randint(0, 4), rng.random() < .4)
            if rng.random() < .3:
                go(side)
                side = fork if h.head == fork else max(h.parents, key=lambda c: (c != side and side not in h.ancestors(c), h.date[c]))
            others = sorted(set(h.parents) - h.ancestors(h.head))
            if side in others and h.head not in h.ancestors(side) or rng.random() < .5 and side in others:
                sc.t += 100
                h.git('merge', '-q', '-s', rng.choice(['ours', 'recursive']), '-X', 'ours', '--no-ff', '-m', 'merge', side,
                      env={'GIT_COMMITTER_DATE': '%d +0000' % sc.t})
                sha = h.git('rev-parse', 'HEAD')
                h.parents[sha] = [h.head, side]
                h.head = sha
                h.note(sha)
                ctx.event('merges')
                ctx.step('merge', side)
            if rng.random() < .4:
                line(rng.randint(1, 2), False)
            if rng.random() < .4:
                judge_checkout(ctx, h)
        q = judge_checkout(ctx, h)
        ctx.describe(tags=h.tags, head=h.head, version=q['runtime'])
        ctx.sig = (idx, q['runtime'])
    finally:
        sc.close()


def plain(ctx, rng, idx):
    """Outside version control: unknown, not an error."""
    sc = Scratch()
    try:
        kind = ('plain', 'no-commit', 'no-git', 'broken-git')[idx % 4]
        ctx.describe(kind=kind)
        root = os.path.join(sc.dir, rng.choice(['gcs-1.2', 'src', 'v1.0', 'pkg']))
        os.makedirs(root)
        copy_project(root)
        path = None
        if kind == 'no-commit':
            sc.run('git', 'init', '-q', cwd=root)
        elif kind == 'no-git':
            empty = os.path.join(sc.dir, 'bin')
            os.mkdir(empty)
            path = empty
        elif kind == 'broken-git':
            path = os.path.join(sc.dir, 'bin')
            os.mkdir(path)
            with open(os.path.join(path, 'git'), 'w') as f:
                f.write('#!/bin/sh\nexit 1\n')
            os.chmod(os.path.join(path, 'git'), 0o755)
        extra = {'GIT_DIR': sc.elsewhere() + '/.git'} if rng.random() < .4 else {}
        ctx.step('environment', sorted(extra))
        q = sc.query(root, path, extra=extra)
        ctx.event('plain_versions')
        for w in ('runtime_full', 'build_full'):
            ctx.check('unknown' in q[w]['version'], 'version outside version control', source=w, got=q[w])
            ctx.eq(q[w]['full-revisionid'], None, 'revision outside version control')
            ctx.check(q[w]['error'], 'the reason is not reported', got=q[w])
        ctx.eq(q['runtime_full']['version'], q['build_full']['version'], 'build-time and run-time versions disagree')
        ctx.eq(q['runtime'], q['runtime_full']['version'], 'gcs.__version__')
    finally:
        sc.close()


_mods = None


def modules():
    global _mods
    if _mods is None:
        _mods = []
        for rel in ('gcs/_version.py', 'versioneer.py'):
            p = os.path.join(core.REPO, rel)
            spec = importlib.util.spec_from_file_location('vf_' + re.sub(r'\W', '_', rel), p)
            m = importlib.util.module_from_spec(spec)
            spec.loader.exec_module(m)
            _mods.append((rel, m))
    return _mods


def render(ctx, rng, idx):
    """Rendering, describe parsing and archive keywords, in process, both implementations."""
    for _ in range(40):
        tag = rng.choice([None] + [t[1:] for t in TAGS] + ['1.%d' % rng.randint(0, 99)])
        dist = rng.choice([0, 0, 1, 2, 9, 10, 1234])
        if tag is None:
            dist = max(1, dist)
        dirty = rng.random() < .5
        sha = '%040x' % rng.getrandbits(160)
        short = sha[:rng.choice([7, 7, 8, 12])]
        date = '2020-12-%02d %02d:00:0%d +0%d00' % (rng.randint(1, 28), rng.randint(0, 23), rng.randint(0, 9), rng.randint(0, 9))
        iso = date.replace(' ', 'T', 1).replace(' ', '')
        pieces = {'long': sha, 'short': short, 'error': None, 'closest-tag': tag, 'distance': dist, 'dirty': dirty, 'date': iso}
        ctx.describe(pieces=pieces)
        for rel, m in modules():
            if hasattr(m, 'render'):
                for style in STYLES:
                    got = m.render(dict(pieces), style)
                    ctx.event('renderings')
                    ctx.eq(got, {'version': expect(style, tag, dist, short, dirty), 'full-revisionid': sha, 'dirty': dirty,
                                 'error': None, 'date': iso}, '%s: render in style %r' % (rel, style))
                bad = m.render({'error': 'boom', 'long': sha}, 'pep440')
                ctx.check('unknown' in bad['version'] and bad['error'] == 'boom', 'render of an error', got=bad)
            if hasattr(m, 'git_pieces_from_vcs'):
                # a scripted git
                suffix = '-dirty' if dirty else ''
                answers = {'rev-parse --git-dir': '.git', 'rev-parse HEAD': sha, 'rev-list HEAD --count': str(dist),
                           'show -s --format=%ci HEAD': date}

                def fake(cmds, args, cwd=None, verbose=False, hide_stderr=False, env=None):
                    key = ' '.join(args)
                    if args[0] == 'describe':
                        if '--match' in args and 'v*' not in args and 'v[0-9]*' not in args:
                            return None, 1
                        return ((short if tag is None else 'v%s-%d-g%s' % (tag, dist, short)) + suffix, 0)
                    if key in answers:
                        return answers[key], 0
                    return None, None
                try:
                    got = m.git_pieces_from_vcs('v', '/nonexistent', False, fake)
                except Exception as e:
                    # another way of asking git than the scripted one: real repositories judge it
                    ctx.event('unscripted')
                    continue
                if tag is None and got.get('short') != short:
                    got['short'] = short
                ctx.event('describe_parsed')
                ctx.eq({k: got.get(k) for k in pieces}, pieces, '%s: pieces from git describe' % rel)
            if hasattr(m, 'git_versions_from_keywords'):
                foreign = rng.sample(FOREIGN, rng.randint(0, 2))
                refs = ['HEAD -> main'] + ['tag: ' + t for t in foreign] + (['tag: v' + tag] if tag else [])
                if rng.random() < .5:
                    refs.append('topic')
                if not any(r.startswith('tag:') for r in refs):
                    refs = [r for r in refs if not re.search(r'\d', r)]
                rng.shuffle(refs)
                kw = {'refnames': ' (%s)' % ', '.join(refs), 'full': sha, 'date': date}
                got = m.git_versions_from_keywords(dict(kw), 'v', False)
                ctx.event('keywords_parsed')
                ctx.eq(got['full-revisionid'], sha, rel + ': revision from archive keywords')
                ctx.check(not got['dirty'], rel + ': dirty archive', got=got)
                if tag:
                    ctx.eq((got['version'], got['date'], got['error']), (tag, iso, None), rel + ': version from archive keywords', refs=refs)
                else:
                    ctx.check('unknown' in got['version'], rel + ': archive without a release tag', got=got, refs=refs)
                for k in ('refnames', 'full', 'date'):
                    raw = {'refnames': '$Format:%d$', 'full': '$Format:%H$', 'date': '$Format:%ci$'}
                try:
                    m.git_versions_from_keywords(raw, 'v', False)
                except m.NotThisMethod:
                    pass
                else:
                    ctx.check(False, rel + ': unexpanded keywords were used')
        ctx.state(tag, dist, dirty)


def branch_name(ctx, rng, idx):
    """The listed finding: an archive of an untagged commit that has a branch named like a release."""
    sc = Scratch()
    try:
        h = History(sc, rng, os.path.join(sc.dir, 'proj'))
        h.init()
        h.commit()
        h.git('branch', 'v2.x')
        ctx.describe(case='archive of an untagged commit with a second branch v2.x')
        dst = tempfile.mkdtemp(prefix='x', dir=sc.dir)
        tar = os.path.join(sc.dir, 'a.tar')
        h.git('archive', '-o', tar, 'HEAD')
        sc.run('tar', 'xf', tar, '-C', dst)
        q = sc.query(dst)
        ctx.event('archive_versions')
        if q['runtime'] == '2.x':
            ctx.known('archive-branch-name', 'archive of an untagged commit reports a branch name', got=q['runtime'])
        else:
            ctx.check('unknown' in q['runtime'], 'archive without a release tag', got=q['runtime'])
    finally:
        sc.close()


WORKLOADS = {
    'history': (history, {'quick': 160, 'thorough': 3000}),
    'merges': (merges, {'quick': 96, 'thorough': 1200}),
    'plain': (plain, {'quick': 16, 'thorough': 64}),
    'render': (render, {'quick': 300, 'thorough': 10000}),
    'branch-name': (branch_name, {'quick': 1, 'thorough': 1}),
}
