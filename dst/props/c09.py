"""C09: uploads under I/O faults, client errors and concurrent first use."""
from __future__ import annotations
import hashlib
import json
import os
import sys
import types as pytypes
from ..disk import Disk, DiskError, gen_fault
from ..sim import (Violation, InjectedFault, Clock, Entropy, Scheduler,
                   SimCrash, gen_switches)

ID = 'C09'
QUICK = 5000
THOROUGH = 300000
BATCH = 1
AXES = ('faults', 'progs.0', 'progs.1', 'progs.2', 'switches')
STATE_RULE = ('distinct hashes of (engine, kind of upload object, size class, '
              'file name class, outcome, faults so far, threads)')
REAL = ['uploader modifier, local file uploader, S3 uploader',
        'configuration loading', 'assignment of uploaded values']
STUB = ['disk (scratch directory with injected errors and interrupts)',
        'S3 service (in '
        'memory, with errors)', 'boto3', 'upload objects of the web '
        'frameworks', 'entropy', 'thread scheduler']
ASSUMPTIONS = ['operating system entropy does not repeat']

NAMES = ['a.png', 'B.JPEG', 'noext', '.hidden', 'a.tar.gz', '../../up.sh',
         '/etc/passwd', 'x/y.z', 'sp ace.Txt', '', '..', 'dot.', 'caf\u00e9.P\u00c9',
         'a\\b.exe', '..png/..', 'c.p/../q.r', 'd.ir/file',
         'notes.Markdown', 'a.verylongextension']


def prepare():
    import pathlib
    import uuid
    pathlib.Path('a.b').suffix
    uuid.uuid4()


def gen(rng):
    n = rng.choice([1, 1, 2, 2, 3])

    def op():
        return [rng.choice(['local', 'local', 'local', 'local2', 's3', 's3b']),
                rng.choice(['starlette', 'werkzeug']),
                rng.randrange(len(NAMES)), rng.choice([0, 1, 5, 1000, 70000]),
                rng.choice(['init', 'set', 'set', 'direct']),
                rng.choice([None, None, None, None, None, 'read-error',
                            'read-gone', 'none', 'callable'])]
    same = op() if rng.maybe(.3) else None
    progs = [[list(same) if same else op()
              for _ in range(rng.choice([1, 1, 2, 4]))] for _ in range(n)]
    faults = []
    if rng.maybe(.6):
        for _ in range(rng.choice([1, 1, 2, 3])):
            if rng.maybe(.15):
                faults.append({'point': 's3', 'n': rng.randrange(4),
                               'kind': rng.choice(['error', 'after'])})
            else:
                faults.append(gen_fault(
                    rng, ['disk.open.write', 'disk.write', 'disk.write',
                          'disk.close', 'disk.mkdir', 'disk.open.read'],
                    interrupts=True))
    return {'n': n, 'progs': progs, 'faults': faults, 'fresh': True,
            'order': [rng.randrange(n) for _ in range(n)],
            'premade': rng.maybe(.3), 'shape': rng.randrange(3), 'seed': rng.randrange(1 << 30),
            'near': rng.choice([None, None, 0, 4, 10, 14]),
            'switches': gen_switches(rng, n, files=['uploaders.py'])
            if n > 1 else []}


CONF = {'uploaders': {
    'local': {'client': 'localfs', 'config': {'dir': 'img', 'url':
                                              'https://h.example'}},
    'local2': {'client': 'localfs', 'config': {'dir': 'deep/er/docs', 'url':
                                               'https://h2.example'}},
    's3': {'client': 's3', 'config': {
        'regionName': 'r1', 'endpointUrl': 'https://s3.example',
        'awsAccessKeyId': 'id', 'awsSecretAccessKey': 'sec',
        'bucket': 'bk', 'acl': 'public-read'}},
    's3b': {'client': 's3', 'config': {
        'regionName': 'r2', 'endpointUrl': 'https://other.example',
        'awsAccessKeyId': 'id2', 'awsSecretAccessKey': 'sec2',
        'bucket': 'bk2', 'acl': 'private'}},
    'oss': {'client': 'alioss', 'config': {'bucket': 'x'}},
    'odd': {'client': 'ftp', 'config': {'bucket': 'x'}},
}}


class ReadError(Exception):
    """The client of the application went away half way."""


class ReadGone(BaseException):
    """The request was cancelled half way."""


def content(i, size):
    if i % 5 == 1:
        return bytes(size)
    if i % 5 == 2:
        return (b'\r\n \x1a\xff\xfe\x00' * size)[:size]
    out = b''
    k = 0
    while len(out) < size:
        out += hashlib.sha256(f'{i}/{k}'.encode()).digest()
        k += 1
    return out[:size]


class Stream:
    def __init__(self, data, broken):
        self.data = data
        self.broken = broken
        self.at = 0

    def read(self, n=-1):
        if self.broken and (n is None or n < 0 or
                            self.at + n > len(self.data) // 2):
            raise self.broken()
        if n is None or n < 0:
            n = len(self.data) - self.at
        got = self.data[self.at:self.at + n]
        self.at += len(got)
        return got

    def seek(self, at, whence=0):
        self.at = at


class UploadFile:
    """As starlette's: .filename, .content_type, .file."""

    def __init__(self, name, data, ctype, broken):
        self.filename = name
        self.content_type = ctype
        self.file = Stream(data, broken)


class FileStorage:
    """As werkzeug's: .filename, .content_type, .save(), .read()."""

    def __init__(self, name, data, ctype, broken):
        self.filename = name
        self.content_type = ctype
        self.stream = Stream(data, broken)

    def read(self, n=-1):
        return self.stream.read(n)

    def save(self, dst, buffer_size=16384):
        import builtins
        close = False
        if not hasattr(dst, 'write'):
            dst = builtins.open(os.fspath(dst), 'wb')
            close = True
        try:
            while True:
                part = self.stream.read(buffer_size)
                if not part:
                    break
                dst.write(part)
        finally:
            if close:
                dst.close()


class S3:
    """The service: atomic objects per endpoint and bucket."""

    def __init__(self, sim):
        self.sim = sim
        self.objects = {}
        self.clients = 0

    def client(self, service, **kw):
        if self.sim.sched is not None:
            self.sim.sched.yield_point('s3')
        self.clients += 1
        conf = {c['region_name']: c for c in S3CONFS}[kw['region_name']]
        for k in ('endpoint_url', 'aws_access_key_id',
                  'aws_secret_access_key'):
            if kw.get(k) != conf[k]:
                raise Violation('wrong-credentials', f'{k}: {kw.get(k)}')
        if service != 's3':
            raise Violation('wrong-credentials', service)
        return S3Client(self, kw['endpoint_url'])


def _snake(c):
    import inflection
    return {inflection.underscore(k): v for k, v in c.items()}


S3CONFS = []


class S3Client:
    def __init__(self, s3, endpoint):
        self.s3 = s3
        self.endpoint = endpoint

    def upload_fileobj(self, fileobj, bucket, key, ExtraArgs=None, **kw):
        if self.s3.sim.sched is not None:
            self.s3.sim.sched.yield_point('s3')
        f = self.s3.sim.hit('s3')
        if f is not None and f['kind'] == 'error':
            raise InjectedFault('s3', f['n'], 'error')
        data = b''
        while True:
            part = fileobj.read(16384)
            if not part:
                break
            data += part
        url = f'{self.endpoint}/{bucket}/{key}'
        if url in self.s3.objects:
            raise Violation('overwritten', f'{url} was uploaded before')
        self.s3.objects[url] = (data, dict(ExtraArgs or {}))
        if f is not None:
            # stored, but the answer is lost
            raise InjectedFault('s3', f['n'], 'after')


class Crashed(Exception):
    pass


def files(root):
    out = {}
    from .. import seams
    for d, _, names in os.walk(root):
        for n in names:
            p = os.path.join(d, n)
            with seams._real_open(p, 'rb') as f:
                out[os.path.relpath(p, root)] = f.read()
    return out


def run(plan, sim):
    from jsonclasses import jsonclass, types
    from .. import seams
    if not S3CONFS:
        S3CONFS.extend(_snake(CONF['uploaders'][k]['config'])
                       for k in ('s3', 's3b'))
    sim.clock = Clock(tick=0)
    sim.entropy = Entropy(plan['seed'], near=plan.get('near'))
    s3 = S3(sim)
    boto = pytypes.ModuleType('boto3')
    boto.client = s3.client
    sys.modules['boto3'] = boto
    saved = sim._faults
    with Disk(sim, 'utf-8') as disk:
        with seams._real_open('config.json', 'w') as f:
            json.dump(CONF, f)
        sim._faults = {}
        if plan['premade']:
            os.makedirs('public/img')
            with seams._real_open('public/img/old.png', 'wb') as f:
                f.write(b'old')
        # (the configuration itself is the business of C10)

        Doc = None
        fields = ['local', 'local2', 's3', 's3b']
        if plan['shape']:
            ns = {'call': types.uploader(
                lambda f, ctx: 'u:' + f.filename).str}
            for f in fields if plan['shape'] == 1 else fields[::-1]:
                ns[f] = types.uploader(f).str
            Doc = jsonclass(class_graph='c09')(type('Doc', (), {
                '__module__': __name__,
                '__annotations__': dict.fromkeys(ns, str), **ns}))
        else:
            # first requested by the uploads themselves
            pass
        refused(types)
        sim._faults = saved
        sim.seam_calls = {}
        before = files(disk.root)
        done = []
        crashed = []

        def worker(t):
            def go():
                doc = Doc and Doc()
                for i, op in enumerate(plan['progs'][t]):
                    one(Doc, doc, t * 100 + i, op, sim, done, crashed, disk,
                        plan)
                return True
            return go
        if plan['n'] == 1:
            try:
                worker(0)()
            except SimCrash:
                pass
        else:
            _, errors = Scheduler(sim, plan['n'], plan['switches'],
                                  plan['order']).run(
                [worker(t) for t in range(plan['n'])])
            for e in errors:
                if e is not None and not isinstance(e, SimCrash):
                    raise e
        judge(plan, sim, disk, done, crashed, before, s3)
        # the faults are over: uploads of every kind work
        sim._faults = {}
        more = []
        doc = Doc and Doc()
        for i, name in enumerate(('local', 'local2', 's3', 's3b')):
            one(Doc, doc, 900 + i, [name, 'starlette', 0, 50, 'set', None],
                sim, more, crashed, disk, plan)
        if any(m[1] is None for m in more):
            raise Violation('no-recovery', f'{more}')
        judge(plan, sim, disk, done + more, crashed, before, s3)
        sim.count('uploads', len(done))
        sim.count('failed_uploads', sum(d[1] is None for d in done))
        sim.ev('done', [[d[0], d[1]] for d in done])


def refused(types):
    """Names that lead nowhere are refused when the field is defined."""
    for name in ('nope', 'odd'):
        try:
            types.str.uploader(name)
        except ValueError:
            continue
        raise Violation('unknown-uploader', f'{name} was accepted')
    # an engine that cannot store the file must not take it
    from jsonclasses.uploaders import request_uploader
    try:
        url = request_uploader('oss').upload(UploadFile('a.b', b'', '', 0))
    except Exception:  # noqa: BLE001
        return
    if not isinstance(url, str):
        raise Violation('file-dropped', f'alioss took a file, gave {url!r}')


def one(Doc, doc, i, op, sim, done, crashed, disk, plan):
    name, cls, fname, size, via, special = op
    data = content(i, size)
    ctype = f'text/x{i}'
    made = (UploadFile if cls == 'starlette' else FileStorage)(
        NAMES[fname], data, ctype, {'read-error': ReadError,
                                    'read-gone': ReadGone}.get(special))
    if special == 'callable':
        name = 'call'
    if doc is None:
        via = 'direct'
        if special in ('none', 'callable'):
            return
    before = getattr(doc, name, None)
    if special == 'none':
        doc.set(**{name: None})
        if getattr(doc, name) is not None:
            raise Violation('url-from-nowhere', 'for no file at all')
        return
    url, err = None, None
    try:
        if via == 'init':
            d = Doc(**{name: made})
            url = getattr(d, name)
        elif via == 'set' or name == 'call':
            doc.set(**{name: made})
            url = getattr(doc, name)
        else:
            from jsonclasses.uploaders import request_uploader
            url = request_uploader(name).upload(made)
            if url is None:
                raise Violation('no-url', f'{op}')
    except (ReadError, ReadGone, InjectedFault, DiskError,
            KeyboardInterrupt) as e:
        err = e
    except SimCrash:
        crashed.append(i)
        if plan['n'] > 1:
            return
        raise
    except (Violation, HarnessFail):
        raise
    except Exception as e:  # noqa: BLE001
        raise Violation('upload-failed', f'{op}: {e!r} without any fault')
    if name == 'call':
        if err is not None or url != 'u:' + NAMES[fname]:
            raise Violation('callable', f'{url!r}')
        return
    if err is not None:
        if via == 'set' and getattr(doc, name) != before:
            raise Violation('url-of-failed-upload', f'{op}: the field was '
                            f'{before!r}, the upload failed, it is '
                            f'{getattr(doc, name)!r}')
        done.append((i, None, name, fname, data, ctype, repr(err), cls))
    else:
        if special in ('read-error', 'read-gone') and size > 0:
            raise Violation('error-swallowed', f'{op} gave {url}')
        if not isinstance(url, str) or (via == 'set' and url == before):
            raise Violation('no-url', f'{op} gave {url!r}')
        done.append((i, url, name, fname, data, ctype, None, cls))
        # it is there the moment the URL is handed out
        check_one(done[-1], disk, None)
    sim.state(name, cls, size, fname % 4, err is None,
              sorted(sim.fault_counts), plan['n'])


class HarnessFail(Exception):
    pass


LOCAL = {'local': ('https://h.example/public/img/', 'public/img'),
         'local2': ('https://h2.example/public/deep/er/docs/',
                    'public/deep/er/docs')}


def check_one(d, disk, s3):
    from .. import seams
    from pathlib import Path
    i, url, name, fname, data, ctype, _, cls = d
    ext = Path(NAMES[fname]).suffix.lower()
    if not url.endswith(ext) or (
            name in LOCAL and Path(url).suffix != ext):
        raise Violation('extension-lost', f'{NAMES[fname]!r} became {url}')
    if name in LOCAL:
        prefix, where = LOCAL[name]
        rest = url[len(prefix):]
        if not url.startswith(prefix) or '/' in rest or not rest:
            raise Violation('wrong-url', url)
        path = os.path.join(disk.root, where, rest)
        if not os.path.isfile(path):
            raise Violation('url-without-file', f'{url} was returned, there '
                            'is no such file')
        with seams._real_open(path, 'rb') as f:
            got = f.read()
        if got != data:
            raise Violation('wrong-content', f'{url}: {len(got)} bytes '
                            f'instead of {len(data)} ({cls})')
    elif s3 is not None:
        got = s3.objects.get(url)
        if got is None:
            raise Violation('url-without-file', url)
        conf = _snake(CONF['uploaders'][name]['config'])
        if not url.startswith(f"{conf['endpoint_url']}/{conf['bucket']}/"):
            raise Violation('wrong-url', url)
        if got[0] != data:
            raise Violation('wrong-content', f'{url}: {len(got[0])} bytes')
        if got[1].get('ACL') != conf['acl'] or \
                got[1].get('ContentType') != ctype:
            raise Violation('wrong-metadata', f'{got[1]}')


def judge(plan, sim, disk, done, crashed, before, s3):
    urls = [d[1] for d in done if d[1] is not None]
    if len(set(urls)) != len(urls):
        raise Violation('url-shared', f'{urls}')
    for d in done:
        if d[1] is not None:
            check_one(d, disk, s3)
    now = files(disk.root)
    for k, v in before.items():
        if now.get(k) != v:
            raise Violation('file-damaged', k)
    known = set()
    for d in done:
        if d[1] is not None and d[2] in LOCAL:
            prefix, where = LOCAL[d[2]]
            known.add(os.path.join(where, d[1][len(prefix):]))
    extra = sorted(set(now) - set(before) - known)
    outside = [e for e in extra if not e.startswith('public/')]
    if outside:
        raise Violation('outside', f'{len(outside)} file(s) written outside '
                        'of the public directory')
    if len(extra) > len(crashed):
        raise Violation('partial-left', f'{len(extra)} file(s) that belong '
                        'to no successful upload are left in the public '
                        f'directory: {[len(now[e]) for e in extra]} bytes')
