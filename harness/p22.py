"""P22 Verification errors survive the way out of worker processes."""
import importlib, inspect, pickle
from librksv import utils
from . import common as c, dep

MODULES = ['receipt', 'verify', 'verify_receipt', 'verification_state', 'depparser', 'key_store', 'utils', 'cashreg', 'sigsys', 'depexport',
           'algorithms']
for _m in MODULES:
    importlib.import_module('librksv.' + _m)


def classes():
    out, todo = [], [utils.RKSVException]
    while todo:
        x = todo.pop()
        if x in out:
            continue
        out.append(x)
        todo += x.__subclasses__()
    return sorted(out, key=lambda x: (x.__module__, x.__name__))


CLASSES = classes()


def parameters(cls):
    """[(name, has a default)] of the constructor"""
    ps = list(inspect.signature(cls.__init__).parameters.values())[1:]
    return [(p.name, p.default is not inspect.Parameter.empty) for p in ps
            if p.kind in (p.POSITIONAL_ONLY, p.POSITIONAL_OR_KEYWORD)]


PARAMS = [parameters(x) for x in CLASSES]


def public(e):
    return dict((k, v) for k, v in vars(e).items() if not k.startswith('_'))


def equal(env, a, b, label):
    env.check(type(a) is type(b), label + ': type')
    if isinstance(a, dict):
        env.check(sorted(a) == sorted(b), label + ': attributes')
        for k in a:
            equal(env, a[k], b[k], label)
    elif isinstance(a, (list, tuple)):
        env.check(len(a) == len(b), label + ': length')
        for x, y in zip(a, b):
            equal(env, x, y, label)
    else:
        env.check(a == b, label)


def argument(env, name, optional):
    how = env.choose(name + 'how', (['omit', 'none'] if optional else []) + ['text', 'odd', 'number', 'list'])
    if how == 'text':
        return how, env.str(name, env.choose(name + 'n', [0, 1, 3]), 'ab{}%\'"\\\n\xe4')
    if how == 'number':
        return how, env.int(name, -3, 300)
    return how, dict(omit=None, none=None, odd='{}{0}%s\ud800\x00"\u20ac', list=['x', None]).get(how)


def trips(env, e, n, label):
    x = e
    for i in range(n):
        try:
            x = pickle.loads(pickle.dumps(x))
        except Exception:
            env.fail(label + ': can leave a worker')
            return
    env.check(type(x) is type(e), label + ': same type')
    env.check(str(x) == str(e), label + ': same message')
    equal(env, public(e), public(x), label + ': same content')


def exceptions(env):
    """every error class of the library"""
    i = env.choose('class', list(range(len(CLASSES))))
    cls = CLASSES[i]
    args = []
    for name, optional in PARAMS[i]:
        how, v = argument(env, name, optional)
        if how == 'omit':
            break
        args.append(v)
    try:
        e = cls(*args)
        text = str(e)
    except Exception:
        # arguments it was not made for; texts are always fine
        for a in args:
            if not isinstance(a, str) and a is not None:
                env.reach('refused')
                return
        env.fail('errors can be created from texts')
        return
    trips(env, e, env.choose('trips', [1, 2]), 'an error')


BAD = ['start_unsigned', 'start_turnover', 'start_type', 'start_chain', 'restore', 'dup', 'reg', 'systype', 'date', 'chain', 'counter', 'sig',
       'malformed', 'group', 'cert', 'trust']


def provoked(env):
    """errors of DEPs verified with and without worker processes"""
    what = env.choose('what', BAD)
    rid = env.str('rid', env.choose('n', [1, 2]), 'ab{%\xe4-')
    S = c.Spec
    one = ('1,00',) + c.ZERO[1:]
    a, b, d = S('r0'), S(rid, one), S('r2', one)
    certs = ('', [])
    if what == 'start_unsigned':
        a = S(rid, signed=None)
    elif what == 'start_turnover':
        a, b = S(rid, one), S('r1')
    elif what == 'start_type':
        a, b = S(rid, kind='T'), S('r1')
    elif what == 'start_chain':
        a, b = S(rid, chain=c.chain_value('other')), S('r1')
    elif what == 'restore':
        a, b, d = S('r0'), S('r1', one, signed=None), S(rid, one)
        specs = [a, b, d, S('r3', one)]
    elif what == 'dup':
        d = S(rid, one)
    elif what == 'reg':
        d = S(rid + 'x', one, reg='other')
    elif what == 'systype':
        b = S(rid, one, zda='AT0', serial='U:ATU12345678-a')
    elif what == 'date':
        a, b = S('r0', ts=c.TS % 5), S(rid, one, ts=c.TS % 4)
    elif what == 'chain':
        b = S(rid, one, chain=c.chain_value('other'))
    elif what == 'counter':
        b = S(rid, one, ctr=c.enc_counter(c.KEY, 'reg', 'x', 77))
    elif what == 'sig':
        b = S(rid, one, signed='B')
    specs = [a, b, d] if what != 'restore' else specs
    jws = dep.build(specs)[0]
    D = dep.dep_dict([('', [], jws)])
    g = D['Belege-Gruppe'][0]
    if what == 'malformed':
        g['Belege-kompakt'][1] = rid
    elif what == 'group':
        del g['Zertifizierungsstellen']
    elif what == 'cert':
        g['Signaturzertifikat'] = env.choose('cert', ['x', 'ab{%', '\xe4', '\ud800', c.cert_b64('LEAF')[:-8]])
    elif what == 'trust':
        g['Signaturzertifikat'] = c.cert_b64('LEAFB')
    ks = c.key_store('LEAF')
    if what == 'systype':
        ks.putKey('U:ATU12345678-a', c.PUB['A'], None)

    def attempt(how):
        try:
            dep.whole(dep.Model(), jws, ks, how, dep=D)()
        except utils.RKSVException as e:
            return e
        except Exception:
            env.fail('verification fails with verification errors only')
        env.fail('a defective DEP is refused')
    e = attempt(env.choose('direct', ['parsed', 'procs']))
    f = attempt('pool')
    # which of several errors comes first is not defined, but here there is one only
    env.check(type(e) is type(f), 'the same error arrives')
    env.check(str(e) == str(f), 'the same message arrives')
    equal(env, public(e), public(f), 'the same receipt arrives')
    trips(env, e, 1, 'a verification error')


CASES = [dict(name='exceptions', fn=exceptions), dict(name='provoked', fn=provoked)]
BOUNDS = ('every class of errors in the library; every argument an arbitrary text of up to 3 characters, a number, a list, missing or None; '
          '16 defects of DEPs with receipt identifiers of 1-2 characters, verified in this process and in workers')
OUTSIDE = 'errors of other libraries'
ASSUMPTIONS = ['pickling follows the __reduce__ protocol']
