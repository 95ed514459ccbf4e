import importlib

from hat.event import common

from pysym.job import Job
from . import lib


ASSUMPTIONS = [
    "json data are as decoded from text: null, boolean, integer or float, "
    "text, list, dictionary",
    "missing element on the path is the same as null"]

TYPES = ['null', 'boolean', 'string', 'number', 'array', 'object']


def scalar(ctx, name, kinds=('null', 'bool', 'int', 'float', 'str')):
    kind = ctx.pick(f'{name}_kind', kinds)
    if kind == 'null':
        return None
    if kind == 'bool':
        return ctx.flag(f'{name}_b')
    if kind == 'int':
        return ctx.int(f'{name}_i', -2 ** 60, 2 ** 60)
    if kind == 'float':
        return ctx.float(f'{name}_f', 4, -2 ** 40, 2 ** 40)
    if kind == 'str':
        return ctx.text(f'{name}_s', lib.SEGS)
    if kind == 'list':
        return [ctx.int(f'{name}_i', -2 ** 60, 2 ** 60)]
    if kind == 'blist':
        return [ctx.flag(f'{name}_b')]
    if kind == 'elist':
        return []
    if kind == 'dict':
        return {'k': ctx.int(f'{name}_i', -2 ** 60, 2 ** 60)}
    if kind == 'dict2':
        return {'l': ctx.flag(f'{name}_b')}
    if kind == 'edict':
        return {}
    raise ValueError(kind)


ALL = ('null', 'bool', 'int', 'float', 'str', 'list', 'blist', 'elist', 'dict',
       'dict2', 'edict')


def kind_of(v):
    """As in JSON"""
    if v is None:
        return 'null'
    if isinstance(v, bool):
        return 'boolean'
    if isinstance(v, list):
        return 'array'
    if isinstance(v, dict):
        return 'object'
    if isinstance(v, (int, float)):
        return 'number'
    assert isinstance(v, str)
    return 'string'


def equal(ctx, a, b):
    if kind_of(a) != kind_of(b):
        return False
    if isinstance(a, list):
        return len(a) == len(b) and ctx.and_(*(equal(ctx, i, j)
                                               for i, j in zip(a, b)))
    if isinstance(a, dict):
        return a.keys() == b.keys() and ctx.and_(*(equal(ctx, a[k], b[k])
                                                   for k in a))
    return a == b


def element(data, path):
    flat = []

    def walk(p):
        if isinstance(p, list):
            for i in p:
                walk(i)
        else:
            flat.append(p)

    walk(path)
    for i in flat:
        if isinstance(i, str):
            data = data.get(i) if isinstance(data, dict) else None
        elif isinstance(data, list) and -len(data) <= i < len(data):
            data = data[i]
        else:
            data = None
    return data


def spec(ctx, conf, e):
    if conf['type'] == 'all':
        return ctx.and_(*(spec(ctx, c, e) for c in conf['conditions']))
    if conf['type'] == 'any':
        return ctx.or_(*(spec(ctx, c, e) for c in conf['conditions']))
    if not isinstance(e.payload, common.EventPayloadJson):
        return False
    data = element(e.payload.data, conf.get('data_path', []))
    c = []
    if 'data_type' in conf:
        c.append(kind_of(data) == conf['data_type'])
    if 'data_value' in conf:
        c.append(equal(ctx, conf['data_value'], data))
    return ctx.and_(*c)


def make_event(type_, payload):
    return common.Event(id=common.EventId(1, 2, 3), type=type_,
                        timestamp=common.Timestamp(1, 0),
                        source_timestamp=None, payload=payload)


def decide(ctx, conf, e):
    m = importlib.import_module('hat.event.backends.lmdb.conditions')
    got = m.Conditions(conf).matches(e)
    got = True if got else False
    expected = ctx.and_(*(ctx.implies(
        lib.spec_any(ctx, e.type, [tuple(t) for t in i['subscriptions']]),
        spec(ctx, i['condition'], e)) for i in conf))
    ctx.check(ctx.eq(got, expected), 'matches')
    ctx.reach('matched' if got else 'not matched')


def leaf(ctx, name, p):
    conf = {'type': 'json'}
    if p.path:
        x = ctx.pick(f'{name}_path', (None, *p.path))
        if x is not None:
            conf['data_path'] = x
    t = ctx.pick(f'{name}_type', p.data_types)
    if t is not None:
        conf['data_type'] = t
    if ctx.flag(f'{name}_value'):
        conf['data_value'] = scalar(ctx, f'{name}_value', p.vals)
    return conf


def value(ctx):
    """One json condition on arbitrary payload"""
    p = ctx.params
    kind = ctx.pick('payload', ('json', 'none', 'binary'))
    if kind == 'json':
        payload = common.EventPayloadJson(scalar(ctx, 'data', p.vals))
    elif kind == 'binary':
        payload = common.EventPayloadBinary(ctx.text('type', lib.SEGS),
                                            ctx.bytes_('bytes', 2))
    else:
        payload = None
    decide(ctx, [{'subscriptions': [['*']],
                  'condition': leaf(ctx, 'c', p)}],
           make_event(('a',), payload))


def path(ctx):
    """Elements of structured data"""
    p = ctx.params
    x = scalar(ctx, 'x', p.vals)
    y = scalar(ctx, 'y', p.vals)
    data = ctx.pick('data', [{'a': x, 'b': [y, x]}, [x, {'a': y}],
                             {'a': {'a': x}}, x])
    decide(ctx, [{'subscriptions': [['*']],
                  'condition': leaf(ctx, 'c', p)}],
           make_event(('a',), common.EventPayloadJson(data)))


def tree(ctx):
    """Composition of conditions"""
    p = ctx.params

    def node(name, depth):
        kind = ctx.pick(f'{name}_node', ('all', 'any', 'json') if depth else
                        ('json',))
        if kind == 'json':
            return {'type': 'json', 'data_path': ctx.pick(f'{name}_p', 'xy'),
                    'data_value': ctx.int(f'{name}_v', 0, 9)}
        n = ctx.pick(f'{name}_n', range(p.width + 1))
        return {'type': kind,
                'conditions': [node(f'{name}{i}', depth - 1)
                               for i in range(n)]}

    conf = node('c', p.depth)
    decide(ctx, [{'subscriptions': [['*']], 'condition': conf}],
           make_event(('a',), common.EventPayloadJson(
               {'x': ctx.int('x', 0, 9), 'y': ctx.int('y', 0, 9)})))


def types(ctx):
    """Conditions apply to event types of their subscriptions"""
    p = ctx.params
    conf = [{'subscriptions': [list(lib.query_type(ctx, f'q{i}{j}', n))
                               for j, n in enumerate(q)],
             'condition': {'type': 'json', 'data_value': ctx.int(f'v{i}', 0,
                                                                 9)}}
            for i, q in enumerate(p.subs)]
    decide(ctx, conf, make_event(
        lib.event_type(ctx, 't', p.n),
        common.EventPayloadJson(ctx.int('x', 0, 9))))


def jobs(tier):
    quick = tier == 'quick'
    both = ('matched', 'not matched')
    yield Job('value', value, dict(vals=ALL, path=(),
                                   data_types=[None, *TYPES]),
              require=both, bounds='any payload of any type, any condition '
              'on its type and value')
    yield Job('path', path, dict(
        vals=('null', 'int', 'str') if quick else
        ('null', 'bool', 'int', 'str', 'list'),
        data_types=[None, 'null', 'number', 'array'],
        path=['a', 'b', 0, 1, -1, -3, ['a', 'a'], ['b', 1], [['b'], [0]],
              [1, 'a'], []]),
        require=both, bounds='structured payloads, paths of up to 2 '
        'elements')
    yield Job('tree', tree, dict(depth=2, width=2), require=both,
              bounds='conditions of depth 2 with up to 2 members each')
    for subs, n in [(((1,), (1,)), 1), (((2, 1), (2,)), 2),
                    (((1,), (2,), (1,)), 1)]:
        yield Job(f'types-{len(subs)}-{n}', types, dict(subs=subs, n=n),
                  require=both, bounds=f'{len(subs)} conditions of '
                  f'subscriptions of {subs} subtypes, event type of {n}')
