"""C15: random values and password hashes under any behaviour of the random
source and failures of it."""
from __future__ import annotations
import hashlib
from ..sim import Violation, InjectedFault, Clock, Entropy, raise_fault

ID = 'C15'
QUICK = 20000
THOROUGH = 500000
BATCH = 32
AXES = ('faults', 'ops')
STATE_RULE = ('distinct hashes of (operation, behaviour of the random source, '
              'length class, object new/changed, outcome)')
REAL = ['random value modifiers', 'salt and checkpw', 'default and setonsave '
        'with random values', 'set, save, validate, tojson']
STUB = ['the random module\'s generator', 'operating system entropy',
        'bcrypt (a salted hash with the same interface)', 'storage']
ASSUMPTIONS = ['operating system entropy does not repeat']

LENGTHS = [0, 1, 4, 10, 11, 62, 63, 94, 95, 200]
DIGITS = set('0123456789')
ALNUM = DIGITS | set('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ')
PUNC = ALNUM | set(r"""!"#$%&'()*+,-./:;<=>?@[\]^_`{|}~""")
W = {}


class Bcrypt:
    """Same interface; salted, one way, and it can fail."""

    def __init__(self, sim):
        self.sim = sim

    def gensalt(self, rounds=12, prefix=b'2b'):
        f = self.sim.hit('gensalt')
        if f is not None:
            raise_fault(f, 'gensalt')
        return b'$2b$12$' + self.sim.entropy.os_bytes(11).hex().encode()

    def hashpw(self, password, salt):
        f = self.sim.hit('hashpw')
        if f is not None:
            raise_fault(f, 'hashpw')
        salt = salt[:29]
        return salt + hashlib.sha256(salt + password).hexdigest()[:31].encode()

    def checkpw(self, password, hashed):
        return hashlib.sha256(hashed[:29] + password).hexdigest()[:31] \
            .encode() == hashed[29:]


def prepare():
    from jsonclasses import jsonclass, types

    def build(k):
        n = LENGTHS[k]
        ns = {
            'name': types.str,
            'digits': types.str.randomdigits(n),
            'alnums': types.str.randomalnums(lambda: n),
            'puncs': types.str.randomalnumpuncs(types.default(n)),
            'code': types.str.default(types.randomdigits(n)),
            'otp': types.str.setonsave(types.randomdigits(n)),
            'num': types.int.randomint(k, k + 3),
            'flt': types.float.randomfloat(1.5, lambda: 1.5 + k),
            'password': types.str.writeonly.minlength(4).salt,
        }
        cls = jsonclass(class_graph='c15')(type(f'R{k}', (), {
            '__module__': __name__,
            '__annotations__': {a: (int if a == 'num' else float if a == 'flt'
                                    else str) for a in ns}, **ns}))

        def write(self):
            self._mark_unmodified()
        cls._database_write = write
        return cls
    ns = {'given': types.str,
          'proof': types.str.checkpw(types.this.fval('given'))}
    W['proof'] = jsonclass(class_graph='c15')(type('Proof', (), {
        '__module__': __name__, '__annotations__': {'given': str,
                                                    'proof': str}, **ns}))
    for k in range(len(LENGTHS)):
        W[k] = build(k)
    W['names'] = ['digits', 'alnums', 'puncs', 'code', 'num', 'flt']


KINDS = ('new', 'new', 'again', 'name', 'save', 'save', 'validate', 'json',
         'password', 'password', 'badpw', 'proof', 'update', 'nonepw')


def gen(rng):
    ops = [['new', rng.randrange(10), 0, 0]]
    for _ in range(rng.choice([3, 6, 12])):
        ops.append([rng.choice(KINDS), rng.randrange(10), rng.randrange(6),
                    rng.randrange(100)])
    faults = []
    if rng.maybe(.4):
        for _ in range(rng.choice([1, 2])):
            faults.append({'point': rng.choice(['gensalt', 'hashpw']),
                           'n': rng.randrange(5),
                           'kind': rng.choice(['error', 'memory',
                                               'interrupt'])})
    return {'ops': ops, 'faults': faults, 'seed': rng.randrange(1 << 30),
            'mode': rng.choice(['prng', 'prng', 'low', 'high', 'repeat'])}


def shape(o, k):
    n = LENGTHS[k]
    for f, alpha in (('digits', DIGITS), ('alnums', ALNUM), ('puncs', PUNC),
                     ('code', DIGITS)):
        v = getattr(o, f)
        if type(v) is not str or len(v) != n or set(v) - alpha:
            raise Violation('wrong-random-text', f'{f}({n}): {v!r}')
    if type(o.num) is not int or not k <= o.num <= k + 3:
        raise Violation('wrong-random-number', f'{k}..{k + 3}: {o.num!r}')
    if type(o.flt) is not float or not 1.5 <= o.flt <= 1.5 + k:
        raise Violation('wrong-random-number', f'1.5..{1.5 + k}: {o.flt!r}')


def secret(objs, y, z):
    """Passwords people choose, and ones an attacker would."""
    hashes = [e[0].password for e in objs if e[0].password is not None]
    pool = [f'secret{y}', f'new secret {y}', 'p\u00e4ssw\u00f6rd \u4f60', 'x' * 200,
            '$2b$12$' + 'a' * 53, '$2a$10$abc', '    ', '1234',
            ' padded ', 'null', 'a' * 60]
    return (hashes + pool)[z % (len(pool) + len(hashes))]


FAULTS = (InjectedFault, MemoryError, KeyboardInterrupt)


def run(plan, sim):
    from jsonclasses.excs import ValidationException
    sim.clock = Clock(tick=0)
    sim.entropy = Entropy(plan['seed'], plan['mode'])
    sim.bcrypt = Bcrypt(sim)
    objs = []
    texts = []

    def snap(o):
        return [getattr(o, f) for f in W['names'] + ['password', 'otp']]
    for op in plan['ops']:
        kind, x, y, z = op
        how = 'ok'
        if kind == 'new' or not objs:
            kind = 'new'
            k = (x + z) % 10
            pw = secret(objs, y, z // 2) if z % 2 else None
            try:
                o = W[k](**({'password': pw} if pw else {}), otp='1' * z)
            except FAULTS:
                how = 'fault'
            else:
                objs.append([o, k, pw])
                shape(o, k)
                hashed(o, pw)
                texts.append((k, o.digits))
                texts.append((k, o.code))
        else:
            ent = objs[x % len(objs)]
            o, k, pw = ent
            was = snap(o)
            want = was
            try:
                if kind == 'name':
                    o.set(name=f'n{z}')
                elif kind == 'update':
                    o.update(name=f'u{z}')
                elif kind == 'again':
                    f = W['names'][y]
                    o.set(**{f: None})
                    shape(o, k)
                    want = snap(o)
                    for a, b, g in zip(was, want, W['names']):
                        if g != f and a != b:
                            raise Violation('random-changed', f'{g} changed '
                                            f'when {f} was set')
                elif kind == 'save':
                    touched = o.is_new or o.is_modified
                    o.save()
                    want = snap(o)
                    if touched and (
                            type(o.otp) is not str or
                            len(o.otp) != LENGTHS[k] or set(o.otp) - DIGITS):
                        raise Violation('wrong-random-text', f'otp '
                                        f'({LENGTHS[k]}): {o.otp!r}')
                    if want[:-1] != was[:-1]:
                        raise Violation('random-changed', 'by a save: '
                                        f'{was} {want}')
                elif kind == 'validate':
                    o.validate()
                elif kind == 'json':
                    if 'password' in o.tojson():
                        raise Violation('password-output', '')
                elif kind == 'password':
                    old = o.password
                    ent[2] = pw = secret(objs, y, z)
                    try:
                        o.set(password=pw)
                    except FAULTS:
                        if o.password != old:
                            raise Violation('password-after-fault',
                                            f'{old!r} became {o.password!r}')
                        ent[2] = None if old is None else ...
                        raise
                    if o.password == old:
                        raise Violation('hash-repeated', f'{old}')
                    want = snap(o)
                    hashed(o, pw)
                elif kind == 'badpw':
                    try:
                        o.set(password='abc')
                    except ValidationException:
                        pass
                    else:
                        raise Violation('short-password', 'accepted')
                elif kind == 'nonepw':
                    o.set(password=None)
                    ent[2] = None
                    if o.password is not None:
                        raise Violation('password-from-nowhere', '')
                    want = snap(o)
                elif kind == 'proof':
                    if o.password is not None and pw not in (None, ...):
                        prove(o, pw, y)
            except FAULTS:
                how = 'fault'
            now = snap(o)
            if how == 'ok' and now != want:
                raise Violation('random-changed', f'by {kind}: {want} {now}')
            if how == 'fault' and now != was:
                raise Violation('random-changed', f'by a failed {kind}')
            hashed(o, ent[2])
        sim.ev(kind, x, y, z, how, [snap(e[0]) for e in objs[-1:]])
        sim.state(kind, plan['mode'], how, k, sorted(sim.fault_counts))
    if plan['mode'] == 'prng':
        # drawn for each object: never the same long text twice
        long = [t for k, t in texts if LENGTHS[k] >= 62]
        if len(set(long)) != len(long):
            raise Violation('random-frozen', 'two objects have the same '
                            'random text')
        # and drawn with repetition: a long text without any repeated
        # character practically never happens
        for k, t in texts:
            if LENGTHS[k] == 10:
                sim.count('ten_digits')
    hashes = [e[0].password for e in objs if e[0].password is not None]
    if len(set(hashes)) != len(hashes):
        raise Violation('hash-repeated', 'two objects share a password hash')
    draws(sim, plan)


def draws(sim, plan):
    """Independent digits: ten draws of ten digits without one repeated
    digit happen with probability 1e-35."""
    if plan['mode'] != 'prng' or plan['seed'] % 8:
        return
    got = [W[3]() for _ in range(10)]
    if all(len(set(o.digits)) == 10 for o in got):
        raise Violation('never-repeats', 'random digits never repeat a digit')
    if all(len(set(o.code)) == 10 for o in got):
        raise Violation('never-repeats', 'random digits never repeat a digit')
    if len({o.num for o in (W[0]() for _ in range(80))}) == 1:
        raise Violation('random-frozen', 'random int')


def hashed(o, pw):
    """What is stored is a hash of exactly the password last set."""
    v = o.password
    if pw is ...:
        return
    if pw is None:
        if v is not None:
            raise Violation('password-from-nowhere', f'{v!r}')
        return
    if not isinstance(v, str) or v == pw or len(pw) > 7 and pw in v:
        raise Violation('password-not-hashed', f'{v!r}')
    if hashlib.sha256(v.encode()[:29] + pw.encode()).hexdigest()[:31] != \
            v[29:]:
        raise Violation('hash-wrong', f'{v!r} is not the hash of {pw!r}')


def prove(o, pw, y):
    """checkpw accepts the password and nothing else."""
    from jsonclasses.excs import ValidationException
    right = y % 2 == 0
    p = W['proof'](given=pw if right else [pw + 'x', '', None][y // 2],
                   proof=o.password)
    try:
        p.validate()
        ok = True
    except ValidationException:
        ok = False
    if ok != right:
        raise Violation('checkpw', f'said {ok} for the '
                        f'{"right" if right else "wrong"} password')
