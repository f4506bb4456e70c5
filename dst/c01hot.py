"""Classes with (nearly) every modifier, for threads that overlap inside them.

Application callbacks are natural preemption points (they do I/O), so each of
them yields to the scheduler.  Values carry the number of the thread they
belong to; every callback records what it was given."""
from __future__ import annotations
from datetime import datetime, timedelta, timezone
from typing import Optional
from .seams import CUR

C = {}
FIELDS = {}
CLASSES = ('HotV', 'HotT', 'HotL', 'HotO', 'HotU', 'HotS', 'HotP', 'HotM',
           'HotN', 'HotX', 'HotX2', 'HotY', 'HotW', 'HotW2', 'HotC', 'HotD',
           'HotE', 'HotF', 'HotR', 'HotQ', 'HotG')


def seen(*what):
    sim = CUR.sim
    if sim is None:
        return
    sched = sim.sched
    if sched is not None and sched.active:
        sched.yield_point('callback')
    t = who(what)
    sim.traces.setdefault(t, []).append([str(x)[:60] for x in what])
    if sim.inject is not None:
        sim.inject(what)


def who(what):
    """The thread a value belongs to ('t<N>...', or a number N*1000+...)."""
    for x in what[1:]:
        if isinstance(x, str) and x[:1] in 'tT' and x[1:2].isdigit():
            return int(x[1])
        if isinstance(x, int) and not isinstance(x, bool) and x >= 1000:
            return x // 1000
        if isinstance(x, HotOp):
            return x.tid
        i = getattr(x, 'id', None) if hasattr(x, '__is_jsonclass__') else None
        if i is not None:
            return i // 1000
    return 0


class HotOp:
    def __init__(self, tid):
        self.tid = tid
        self._id = 9000 + tid

    def __str__(self):
        return f'op{self.tid}'


DYN = {}
for _k in 'ma mf mg na nb nc nd ne nf ng nh ni nj nk re_ rf qb qg'.split():
    DYN[_k] = 'int'
for _k in 'mb mc md me'.split():
    DYN[_k] = 'float'
for _k in 'wi wj wn wo wp ca fa fb fc fd rh xl'.split():
    DYN[_k] = 'list[str]'
for _k in 'da db dc dd de df dg dh di ea eb ec ed ee ef'.split():
    DYN[_k] = 'datetime'
DYN.update({'qc': 'list[int]', 'qd': 'dict[str, str]', 'dj': 'date',
            'eg': 'HotColor', 'eh': 'HotColor', 'ei': 'list[HotColor]',
            'fh': 'dict[str, list[str]]', 'qh': 'list[str] | dict[str, int]',
            'cg': 'bool', 'fi': 'str | int', 'cb': 'Any', 'cc': 'Any', 'cd': 'Any', 'ce': 'Any'})


def define():
    from enum import Enum
    from jsonclasses import jsonclass, jsonenum, types
    g = 'c01-hot'

    @jsonenum(class_graph=g)
    class HotColor(Enum):
        RED = 1
        BLUE = 2

    def ok(v):
        seen('ok', v)
        return None if 'bad' not in str(v) else f'{v} is bad'

    def okb(v, ctx):
        seen('okb', v, ctx.root)
        return 'bad' not in str(v)

    def tr(v):
        seen('tr', v)
        return v + '!' if isinstance(v, str) else v

    def tr2(v, ctx):
        seen('tr2', v, ctx.root)
        return f'{v}/{ctx.root.id}'

    def cmp(a, b):
        seen('cmp', b, a)
        return b >= a

    def setn(v):
        seen('setn', v)
        return v + 1 if v is not None else None

    def wr_(v, ctx):
        seen('onw', v, ctx.root)

    def up_(a, b, ctx):
        seen('onu', b, a, ctx.root)

    def canr(op, obj):
        seen('canr', op, obj)
        return op is not None and op.tid == obj.id // 1000 and \
            obj.n % 2 == 0

    def canu(op, obj, v):
        seen('canu', op, obj, v)
        return 'deny' not in str(v)

    def arg(n):
        def f(owner):
            seen('arg', owner)
            return (owner.id or 0) // 1000 + n
        return f

    def cc(action):
        def f(obj, op):
            seen(action, obj, op)
            return obj.n % 5 != 4
        return f

    def cb(action):
        def f(obj, op):
            seen(action, obj, op)
        return f

    @jsonclass(class_graph=g)
    class HotUser:
        id: int = types.int.primary.required
        code: str
        gs: list[HotG] = types.listof('HotG').linkedby('owner')

    @jsonclass(class_graph=g)
    class HotPart:
        id: int = types.int.primary.required
        name: str = types.str.validate(ok).minlength(3).required
        size: int = types.int.min(arg(0)).default(lambda: 5)
        parts: list[HotPart] = types.listof('HotPart')
        save_no: int = types.int.setonsave(setn)

    groups = {
        'HotV': dict(
            s=types.str.validate(ok).minlength(2).maxlength(20).required,
            tt=types.str.transform(tr2).validate(okb),
            length=types.str.length(1, 9),
            need=types.str.presentwith('s'),
            calc=types.str.getter(lambda o: got(o))),
        'HotT': dict(
            t=types.str.trim.transform(tr).toupper,
            add=types.int.add(arg(1)).mul(2),
            app=types.str.append(lambda owner: str(arg(3)(owner))).tolower,
            pad=types.str.padstart('0', 12).replace('t', 'T'),
            dflt=types.str.default(lambda: dv())),
        'HotL': dict(
            lst=types.listof(types.str.validate(ok).trim.maxlength(12)),
            mat=types.listof(types.listof(types.int.min(arg(0)))),
            dic=types.dictof(types.str.transform(tr).validate(ok))),
        'HotO': dict(
            parts=types.listof('HotPart'), part=types.objof('HotPart'),
            bykey=types.dictof('HotPart')),
        'HotU': dict(
            uni=types.union([types.int.min(5), types.str.minlength(3)]),
            either=types.str.oneisvalid([
                types.str.validate(lambda v: okb_('x', v)),
                types.str.validate(lambda v: okb_('y', v))]),
            color=types.enum(HotColor),
            when=types.datetime.after(
                datetime(2020, 1, 1, tzinfo=timezone.utc))),
        'HotS': dict(
            num=types.int.compare(cmp).range(0, 10 ** 6),
            ups=types.int.setonsave(setn),
            ons=types.str.onsave(lambda v: seen('ons', v)),
            onw=types.str.onwrite(wr_), onu=types.str.onupdate(up_)),
        'HotP': dict(
            secret=types.str.canr(canr),
            guarded=types.str.canu(canu).canc(canu)),
    }
    def own(fn):
        def param(owner):
            seen('param', owner)
            return fn((owner.id or 0) // 1000)
        return param

    def own2(fn):
        def param(owner, ctx):
            seen('param2', owner, ctx.root)
            return fn((owner.id or 0) // 1000)
        return param

    def pick(v):
        seen('pick', v)
        return 'no' not in str(v)

    def soft(v):
        seen('soft', v)
        return v.strip()

    def each(v):
        seen('each', v)
        return f'{v}+'

    def fmt2(v, ctx):
        seen('fmt', v, ctx.root)
        return f'<{v}>'

    def day(d):
        return datetime(2020, 1, 1, tzinfo=timezone.utc) + timedelta(days=d)
    groups.update({
        'HotM': dict(
            ma=types.int.add(own(lambda t: t)).sub(own2(lambda t: t * 2))
            .mul(own(lambda t: t + 1)).mod(own(lambda t: 900 + t)),
            mb=types.float.div(own(lambda t: t + 1)).pow(2).sqrt,
            mc=types.float.ceil, md=types.float.floor, me=types.float.round,
            mf=types.int.sub(50000).abs,
            mg=types.int.upperbond(own(lambda t: t * 100))
            .lowerbond(own(lambda t: t * 10))),
        'HotN': dict(
            na=types.int.min(own(lambda t: t * 1000)),
            nb=types.int.max(own(lambda t: t * 1000)),
            nc=types.int.lt(own(lambda t: t * 1000 + 3)),
            nd=types.int.gt(own2(lambda t: t * 1000 + 3)),
            ne=types.int.range(own(lambda t: t * 1000 + 2),
                               own(lambda t: t * 1000 + 9)),
            nf=types.int.odd, ng=types.int.even, nh=types.int.positive,
            ni=types.int.negative, nj=types.int.nonnegative,
            nk=types.int.nonpositive),
        'HotX': dict(
            xa=types.str.match(own(lambda t: f'^t{t}[a-m]$')),
            xb=types.str.oneof(own(lambda t: [f't{t}a', f't{t}b'])),
            xc=types.str.hasprefix(own(lambda t: f't{t}')),
            xd=types.str.hassuffix(own(lambda t: f'{t}')),
            xe=types.str.isprefixof(own(lambda t: f't{t}abc')),
            xf=types.str.issuffixof(own(lambda t: f'abct{t}'))),
        'HotX2': dict(
            xg=types.str.eq(own(lambda t: f't{t}')),
            xh=types.str.neq(own2(lambda t: f't{t}')),
            xi=types.str.minlength(own(lambda t: t + 1)),
            xj=types.str.maxlength(own(lambda t: t + 2)),
            xk=types.str.length(own(lambda t: t), own(lambda t: t + 2)),
            xl=types.listof(str).minlength(own(lambda t: t)),
            xm=types.str.vmsg(ok, 'nope'),
            xn=types.str.validate(types.str.match('a$')),
            xo=types.str.vmsg(types.int, 'not an int')),
        'HotY': dict(
            ya=types.str.url, yb=types.str.digit, yc=types.str.alpha,
            yd=types.str.numeric, ye=types.str.email, yf=types.str.hexcolor,
            yg=types.str.securepw, yh=types.str.alnum),
        'HotW': dict(
            wa=types.str.truncate(own(lambda t: t + 2)), wb=types.str.totitle,
            wc=types.str.tocap, wd=types.str.tolower,
            we=types.str.padstart(own(lambda t: str(t)), own(lambda t: 8 + t)),
            wf=types.str.padend(own(lambda t: str(t)), own(lambda t: 8 + t)),
            wg=types.str.replace(own(lambda t: f't{t}'),
                                 own(lambda t: f'T{t}')),
            wh=types.str.replacer(own(lambda t: f'[{t}-9a]'),
                                  own(lambda t: f'<{t}>'))),
        'HotW2': dict(
            wi=types.str.split(own(lambda t: f'{t}')),
            wj=types.listof(str).join(own(lambda t: f'{t}')),
            wk=types.str.reverse,
            wl=types.str.insertat(own(lambda t: f'{t}'), own(lambda t: t)),
            wm=types.str.prepend(own(lambda t: f'{t}')),
            wn=types.listof(str).append(own(lambda t: f'{t}')),
            wo=types.listof(str).prepend(own(lambda t: f'{t}')),
            wp=types.listof(str).insertat(own(lambda t: f'{t}'), 1)),
        'HotC': dict(
            ca=types.any.tolist, cb=types.any.tobool, cc=types.any.tofloat,
            cd=types.any.toint, ce=types.any.tostr,
            cf=types.str.transform(tr).wrapintolist, cg=types.bool.inverse,
            ch=types.str.len, ci=types.str.trim.len),
        'HotD': dict(
            da=types.datetime.tobosec, db=types.datetime.tobomin,
            dc=types.datetime.tobohour, dd=types.datetime.tonextsec,
            de=types.datetime.tonextmin, df=types.datetime.tonexthour,
            dg=types.datetime.before(own(day)),
            dh=types.datetime.after(own(day)),
            di=types.datetime.fmtd(own(lambda t: f'{t}%Y')),
            dj=types.date),
        'HotE': dict(
            ea=types.datetime.toboday, eb=types.datetime.tobomon,
            ec=types.datetime.toboyear, ed=types.datetime.tonextday,
            ee=types.datetime.tonextmon, ef=types.datetime.tonextyear,
            eg=types.enum(HotColor).inputall.outputlname,
            eh=types.enum(HotColor).inputvalue.outputvalue,
            ei=types.listof(types.enum(HotColor).inputlname.outputname)),
        'HotF': dict(
            fa=types.listof(str).map(each), fb=types.listof(str).filter(pick),
            fc=types.listof(str).map(types.str.toupper.append(
                own(lambda t: f'{t}'))),
            fd=types.listof(str).filter(types.str.validate(ok)),
            fe=types.str.fmt(fmt2), ff=types.str.fmt(types.toupper),
            fg=types.str.transform(types.str.trim.prepend(
                own(lambda t: f'{t}'))),
            fi=types.union([types.str.transform(soft), types.int]),
            fh=types.dictof(types.listof(types.str.transform(tr)))),
        'HotR': dict(
            ra=types.str.present, rb=types.str.presentwithout(['rc', 'rd']),
            rc=types.str, rd=types.str.presentwith('rc'),
            re_=types.int.getter(types.this.fval('n').add(1)),
            rf=types.int.getter(types.this.fval('n').mul(2)).setter(
                types.this.assign('n', types.passin.add(3))),
            rg=types.str.default(types.this.fval('rc')),
            rh=types.listof(types.str.required).required,
            ri=types.str.readonly, rj=types.str.writeonly,
            rk=types.str.writeonce, rl=types.str.temp,
            rm=types.str.writenonnull),
        'HotQ': dict(
            qa=types.str.setonsave(lambda: saved()),
            qb=types.int.fsetonsave(setn),
            qc=types.listof(types.int.setonsave(setn)),
            qd=types.dictof(types.str.onsave(lambda v: seen('qd', v))),
            qe=types.str.onwrite(lambda v: seen('qe', v)),
            qf=types.str.onupdate(lambda a, b: seen('qf', b, a)),
            qg=types.int.setonsave(types.this.fval('n').add(7)),
            qh=types.union([types.listof(types.str.validate(ok)),
                            types.dictof(types.int.min(own(
                                lambda t: t * 1000 + 5)))])),
        'HotG': dict(
            owner=types.objof('HotUser').linkto.asop(
                lambda op: seen('asop', op) or op),
            ga=types.str.canr(types.getop.fval('code').eq(
                types.this.fval('gb'))),
            gb=types.str.canu(types.getop.isobj(types.this.fval('owner')))),
    })

    def saved():
        seen('saved')
        return 's'
    conf = dict(can_create=cc('cc'), can_update=[cc('cu')],
                can_read=cc('cr'), can_delete=cc('cd'), on_create=cb('oc'),
                on_update=cb('ou'), on_delete=cb('od'))
    ann = {'lst': 'list[str]', 'mat': 'list[list[int]]',
           'dic': 'dict[str, str]', 'parts': 'list[HotPart]',
           'part': 'HotPart', 'bykey': 'dict[str, HotPart]', 'add': 'int',
           'num': 'int', 'ups': 'int', 'color': 'HotColor',
           'when': 'datetime', **DYN, 'uni': 'str | int', 'owner': 'HotUser'}
    conf_g = dict(can_update=types.getop.isobj(types.this.fval('owner')),
                  can_create=types.getop.fval('code').eq(
                      types.this.fval('gb')),
                  can_delete=types.getop.isobjof('HotUser'))
    for name, fields in groups.items():
        ns = dict(id=types.int.primary.required, n=types.int.required,
                  **fields)
        ns['__annotations__'] = {k: ann.get(k, 'int' if k in ('id', 'n')
                                            else 'str') for k in ns}
        ns['__module__'] = __name__
        cls = type(name, (), ns)
        C[name] = jsonclass(cls, class_graph=g, **(
            conf if name in ('HotP', 'HotS') else
            conf_g if name == 'HotG' else {}))
        FIELDS[name] = list(fields)

    def okb_(tag, v):
        seen('either', v, tag)
        return v.endswith(tag)

    def dv():
        seen('default')
        return 'd'

    def got(o):
        seen('calc', o)
        return f'{o.id}:{o.n}'

    def write(self):
        seen('write', self, ','.join(sorted(self.persisted_modified_fields)))
        self._mark_unmodified()

    def remove(self):
        seen('remove', self)
    C['HotPart'] = HotPart
    C['HotUser'] = HotUser
    for c in C.values():
        c._database_write = write
        c._orm_delete = remove
    for name in groups:
        env = HotEnv(7, name)
        for k in HOT_KINDS:
            for x in range(3):
                env.step([k, x, x])


def values(tid, x, y):
    """Input for one object; bits of x and y choose what is wrong with it."""
    t = f't{tid}'
    v = {
        's': [t + 'ok', t + 'bad', 't', t + 'fine'][x % 4],
        't': f' {t}x ', 'tt': t + ['u', 'bad'][x // 4 % 2],
        'num': tid * 1000 + y, 'add': tid * 1000 + y,
        'app': t + 'APP', 'pad': t,
        'lst': [t + 'a', t + ['b', 'bad', 'c' * 20][y % 3]],
        'mat': [[tid, 9], [[9], [0]][x // 8 % 2]],
        'dic': {t + 'k': t + 'v', 'k': t + ['w', 'bad'][y // 3 % 2]},
        'parts': [{'id': tid * 1000 + 100, 'name': t + 'pp',
                   'parts': [{'id': tid * 1000 + 101,
                              'name': [t + 'qq', 't'][x // 16 % 2]}]},
                  {'id': tid * 1000 + 102, 'name': t + ['rr', 'bad'][y // 6 % 2]}],
        'part': {'id': tid * 1000 + 103, 'name': t + 'ss',
                 'size': [50, 0][x // 32 % 2]},
        'bykey': {t + 'a': {'id': tid * 1000 + 104, 'name': t + 'tt'}},
        'uni': [tid * 1000, t + 'uni', 1][y % 3],
        'either': [t + 'x', t + 'y', t + 'n'][y // 2 % 3],
        'ups': tid * 1000, 'ons': t + 'on', 'onw': t + 'ow', 'onu': t + 'ou',
        'secret': t + 'secret', 'guarded': t + ['g', 'deny'][x // 64 % 2],
        'color': ['RED', 'BLUE', 'NOPE'][y // 4 % 3],
        'when': ['2021-01-01T00:00:00.000Z', '2019-01-01'][x // 128 % 2],
        'need': [t + 'n', None][y // 8 % 2], 'length': t, 'ch': [t, t],
    }
    for i, (k, fn) in enumerate(VALS.items()):
        v[k] = fn(t, tid, x, y) if (x + i * 3) % 13 else None
    return v


def num(tid, x):
    return tid * 1000 + x % 7


DAYS = ['2020-01-02T03:04:05.678Z', '2020-01-03T23:59:59.999Z',
        '2019-12-31T00:00:00.000Z', '2020-01-01', 'never']
VALS = {
    'ma': lambda t, n, x, y: num(n, x), 'mb': lambda t, n, x, y: num(n, y) * .7,
    'mc': lambda t, n, x, y: num(n, x) + .5,
    'md': lambda t, n, x, y: num(n, y) + .5,
    'me': lambda t, n, x, y: num(n, x) + .2,
    'mf': lambda t, n, x, y: num(n, x) * (1 + 49 * (y % 2)),
    'mg': lambda t, n, x, y: [0, n * 40, num(n, x)][y % 3],
    'nf': lambda t, n, x, y: num(n, x), 'ng': lambda t, n, x, y: num(n, x),
    'nh': lambda t, n, x, y: (x % 3 - 1) * n, 'ni': lambda t, n, x, y:
    (x % 3 - 1) * n, 'nj': lambda t, n, x, y: (y % 3 - 1) * n,
    'nk': lambda t, n, x, y: (y % 3 - 1) * n,
    'xa': lambda t, n, x, y: t + 'amz'[x % 3],
    'xb': lambda t, n, x, y: t + 'abc'[y % 3],
    'xc': lambda t, n, x, y: ['', 'x'][x % 2] + t,
    'xd': lambda t, n, x, y: t + ['', 'x'][y % 2],
    'xe': lambda t, n, x, y: t + ['', 'abc', 'x'][x % 3],
    'xf': lambda t, n, x, y: ['', 'abc', 'x'][y % 3] + t,
    'xg': lambda t, n, x, y: t + ['', 'x'][x % 2],
    'xh': lambda t, n, x, y: t + ['x', ''][x % 2],
    'xi': lambda t, n, x, y: t[:1] + 'aaaa'[:x % 4],
    'xj': lambda t, n, x, y: t + 'aaaa'[:y % 4],
    'xk': lambda t, n, x, y: t + 'aaaa'[:x % 5],
    'xl': lambda t, n, x, y: [t] * (y % 4),
    'xm': lambda t, n, x, y: t + ['', 'bad'][x % 2],
    'xn': lambda t, n, x, y: t + ['a', 'b'][y % 2],
    'xo': lambda t, n, x, y: t,
    'ya': lambda t, n, x, y: ['https://' + t + '.com', t][x % 2],
    'yb': lambda t, n, x, y: [str(num(n, x)), t][x % 2],
    'yc': lambda t, n, x, y: ['abc', t][y % 2],
    'yd': lambda t, n, x, y: [str(num(n, x)), t][y % 2],
    'ye': lambda t, n, x, y: [t + '@b.co', t][x // 2 % 2],
    'yf': lambda t, n, x, y: ['FF00' + str(n) * 2, t][y % 2],
    'yg': lambda t, n, x, y: [t + 'Aa#1234567', t][x % 2],
    'yh': lambda t, n, x, y: [t, t + '#'][y // 2 % 2],
    'wj': lambda t, n, x, y: [t, 'x' + t], 'wn': lambda t, n, x, y: [t],
    'wo': lambda t, n, x, y: [t, 'q'], 'wp': lambda t, n, x, y: [t, 'q'],
    'ca': lambda t, n, x, y: [[t], (t, t), {t}][x % 3],
    'cb': lambda t, n, x, y: [t, '', n, 0][x % 4],
    'cc': lambda t, n, x, y: [str(num(n, x)), n * 1000][x % 2],
    'cd': lambda t, n, x, y: [str(num(n, x)), n * 1000 + .5][y % 2],
    'ce': lambda t, n, x, y: num(n, x), 'cg': lambda t, n, x, y: bool(x % 2),
    'eg': lambda t, n, x, y: ['RED', 'blue', 1, 'no'][x % 4],
    'eh': lambda t, n, x, y: [1, 2, 3][y % 3],
    'ei': lambda t, n, x, y: [['red'], ['blue', 'red'], ['nope']][x % 3],
    'dj': lambda t, n, x, y: [f'2020-01-0{n}', 'never'][x % 5 == 4],
    'fa': lambda t, n, x, y: [t, t + 'no'], 'fb': lambda t, n, x, y:
    [t, t + 'no', t + 'x'], 'fc': lambda t, n, x, y: [t, t + 'y'],
    'fd': lambda t, n, x, y: [t, t + 'bad', t + 'z'],
    'fh': lambda t, n, x, y: {t: [t, t + 'x'], 'k': [t]},
    'ra': lambda t, n, x, y: [t, None][x % 3 == 2],
    'rb': lambda t, n, x, y: [t, None][x % 2],
    'rc': lambda t, n, x, y: [t, None][y % 2],
    'rd': lambda t, n, x, y: [t, None][x // 2 % 2],
    'rf': lambda t, n, x, y: n * 2 + x % 2,
    'rg': lambda t, n, x, y: [t, None][y % 2],
    'rh': lambda t, n, x, y: [[t], [t, None], None][x % 3],
    'qb': lambda t, n, x, y: num(n, x), 'qg': lambda t, n, x, y: num(n, x),
    'qc': lambda t, n, x, y: [num(n, x), num(n, y)],
    'qd': lambda t, n, x, y: {t: t, 'k': t + 'k'},
    'qh': lambda t, n, x, y: [[t, t + 'bad'], {t: num(n, x)}, [t]][y % 3],
    'gb': lambda t, n, x, y: t + ['', '', 'x'][x % 3],
}
for _k in 'na nb nc nd ne'.split():
    VALS[_k] = lambda t, n, x, y: num(n, x + y)
VALS['fi'] = lambda t, n, x, y: [t + ' ', num(n, x)][x % 2]
for _k in 'wa wb wc wd we wf wg wh wi wk wl wm cf ch ci fe ff fg ri rj rk ' \
        'rl rm qa qe qf ga'.split():
    VALS[_k] = lambda t, n, x, y: t + ['a b', 'cc', ' d'][x % 3]
for _k in 'da db dc dd de df dg dh di ea eb ec ed ee ef'.split():
    VALS[_k] = lambda t, n, x, y: DAYS[(x + y + n) % 5]


PURE = ('validate', 'validall', 'isvalid', 'json', 'jsonopt')
HOT_KINDS = ('create', 'validate', 'validall', 'json', 'jsonopt', 'save',
             'set', 'badset', 'change', 'delete', 'create2', 'keypath', 'isvalid', 'lists', 'dicts')


def class_for(rng, kind):
    if kind in ('lists', 'dicts'):
        return rng.choice(('HotL', 'HotL', 'HotO', 'HotF', 'HotQ', 'HotR'))
    if kind == 'keypath':
        return rng.choice(('HotL', 'HotO'))
    return rng.choice(CLASSES)


class HotEnv:
    """One thread's object and what it does with it."""

    def __init__(self, tid, cls, x=0, y=0, empty=False):
        self.tid = tid
        self.n = 0
        self.op = HotOp(tid) if cls != 'HotG' else C['HotUser'](
            id=tid * 1000 + 500, code=f't{tid}')
        self.cls = cls
        if empty:
            return
        try:
            self.o = self.make(x, y)
        except Exception:  # noqa: BLE001 - refused at once: start valid
            self.o = C[cls](id=tid * 1000 + 99, n=y % 6).opby(self.op)

    def values(self, x, y):
        v = values(self.tid, x, y)
        return {k: v[k] for k in FIELDS[self.cls] if k in v}

    def make(self, x, y):
        self.n += 1
        v = self.values(x, y)
        return C[self.cls](id=self.tid * 1000 + self.n, n=y % 6,
                           **v).opby(self.op)

    def step(self, op):
        kind, x, y = op
        try:
            out = ['ok', plain(getattr(self, 'do_' + kind)(x, y))]
        except Exception as e:  # noqa: BLE001 - the outcome of the operation
            if CUR.sim is not None and CUR.sim.inject is not None:
                raise
            msgs = getattr(e, 'keypath_messages', None)
            out = ['exc', type(e).__name__, plain(msgs) if msgs
                   else str(e)[:150]]
        CUR.sim and CUR.sim.traces.setdefault(self.tid, []).append(
            [kind, x, y, out])
        return out

    def do_create(self, x, y):
        self.o = self.make(x, y)
        return self.show()

    def do_create2(self, x, y):
        return plain(self.make(x, y).tojson())

    def show(self):
        o = self.o
        return {k: plain(getattr(o, k)) for k in FIELDS[self.cls]}

    def do_validate(self, x, y):
        self.o.validate()

    def do_validall(self, x, y):
        self.o.validate(all_fields=True)

    def do_isvalid(self, x, y):
        return self.o.is_valid

    def do_json(self, x, y):
        return self.o.tojson()

    def do_jsonopt(self, x, y):
        return self.o.tojson(ignore_writeonly=True, output_null=True)

    def do_save(self, x, y):
        self.o.save(validate_all_fields=bool(x % 2))
        return [self.o.is_new, plain(self.o.modified_fields), self.show()]

    def do_set(self, x, y):
        v = self.values(x, y)
        keys = sorted(v)
        k = x % (len(keys) or 1)
        self.o.set(**{q: v[q] for q in keys[k:k + 3]})
        return [plain(self.o.modified_fields), self.show()]

    def do_badset(self, x, y):
        self.o.set(**{k: {1: 2} for k in FIELDS[self.cls]
                      if k not in ('calc', 're_', 'rf')})
        return [plain(self.o.modified_fields), self.show()]

    def do_change(self, x, y):
        self.o._mark_unmodified()
        if self.cls == 'HotS':
            self.o.num = self.o.num + 1 if x % 2 and self.o.num else 1
            self.o.onu = f't{self.tid}v{y}'
            self.o.onw = f't{self.tid}w{y}'
        elif self.cls == 'HotL':
            self.o.lst.append(f't{self.tid}z')
        elif self.cls == 'HotG':
            self.o.gb = f't{self.tid}{["", "z"][y % 2]}'
        elif self.cls == 'HotR':
            self.o.rf = x % 4
            self.o.rc = f't{self.tid}'
        elif self.cls == 'HotQ':
            self.o.qe = f't{self.tid}{y}'
            self.o.qf = f't{self.tid}{x}'
        elif self.cls == 'HotP':
            self.o.guarded = f't{self.tid}{["deny", "g"][y % 2]}'
        else:
            self.o.n += 1
        self.o.save()
        return [plain(self.o.modified_fields), self.show()]

    def field(self, kind, x):
        names = {'lists': 'lst mat parts rh fa wn qc xl',
                 'dicts': 'dic bykey qd fh'}[kind].split()
        got = [getattr(self.o, k) for k in FIELDS[self.cls] if k in names]
        got = [v for v in got if v is not None]
        return got[x % len(got)] if got else None

    def do_lists(self, x, y):
        v = self.field('lists', y)
        if v is None:
            return None
        t = f't{self.tid}'
        if y % 2:
            self.o._mark_unmodified()
        k = x % 16
        if k == 0:
            v.append(t)
        elif k == 1:
            v.insert(0, t)
        elif k == 2:
            v.extend([t, t])
        elif k == 3 and v:
            v.pop()
        elif k == 4 and v:
            del v[0]
        elif k == 5:
            v[:1] = [t + 'a', t + 'b']
        elif k == 6:
            v.clear()
        elif k == 7:
            v += [t]
        elif k == 8:
            v.reverse()
        elif k == 9 and v:
            v.remove(v[0])
        elif k == 10 and v:
            v[0] = t
        elif k == 11 and v and hasattr(v[0], 'append'):
            v[0].append(self.tid)
        elif k == 12:
            v *= 2
        elif k == 13:
            del v[:1]
        elif k == 14:
            v.sort(key=str)
        else:
            v.append([t, [t]] if x // 16 % 2 else {t: [t]})
        return [plain(v), plain(self.o.modified_fields)]

    def do_dicts(self, x, y):
        v = self.field('dicts', y)
        if v is None:
            return None
        t = f't{self.tid}'
        if y % 2:
            self.o._mark_unmodified()
        k = x % 9
        if k == 0:
            v[t] = t
        elif k == 1:
            v.update({t: t, 'q': t})
        elif k == 2 and v:
            v.pop(list(v)[0])
        elif k == 3:
            v.setdefault('q', t)
        elif k == 4 and v:
            del v[list(v)[0]]
        elif k == 5:
            v |= {t: t}
        elif k == 6:
            v.clear()
        elif k == 7 and v:
            v.popitem()
        else:
            v['n'] = {t: [t]}
        return [plain(v), plain(self.o.modified_fields)]

    def do_keypath(self, x, y):
        if self.cls == 'HotL':
            self.o.set(**{'lst.0': f't{self.tid}kp', 'dic.k': 'q'})
        if self.cls == 'HotO':
            self.o.set(**{'part.name': f't{self.tid}name'})
        return self.show()

    def do_delete(self, x, y):
        self.o.delete()


def plain(v, depth=0):
    if depth > 6:
        return '...'
    if isinstance(v, dict):
        return {str(k): plain(x, depth + 1) for k, x in v.items()}
    if isinstance(v, (set, frozenset)):
        return sorted(map(str, v))
    if isinstance(v, (list, tuple)):
        if isinstance(v, tuple):
            v = sorted(map(str, v))
        return [plain(x, depth + 1) for x in v]
    if hasattr(v, '__is_jsonclass__') and not isinstance(v, type):
        d = {k: plain(getattr(v, k), depth + 1) for k in
             ('id', 'name', 'size', 'parts', 'save_no') if hasattr(v, k)}
        return [type(v).__name__, d]
    if isinstance(v, (str, int, float, bool)) or v is None:
        return v
    return repr(v)[:60]
