"""Shared harness helpers and reference definitions (oracles)."""

# texts of event type segments; first two are query wildcards.  Remaining
# texts are arbitrary distinct ones (only equality matters to the code; odd
# ones are included so that other text operations are caught)
SEGS = ['?', '*', 'a', 'b', '', '**', 'a/b', '?a', 'A', '*a', ' ', 'c', 'd',
        'e', 'f', 'g']
WILD = ('?', '*')


def query_type(ctx, name, n, pool=SEGS):
    """Valid query type with n segments: '*' only at the last place"""
    return tuple(ctx.text(f'{name}_{i}', pool,
                          exclude=('*',) if i + 1 < n else ())
                 for i in range(n))


def event_type(ctx, name, n, wild=False):
    return tuple(ctx.text(f'{name}_{i}', SEGS, exclude=() if wild else WILD)
                 for i in range(n))


def spec_matches(ctx, event_type, query_type):
    """Documented matching rules, as a formula"""
    n, m = len(event_type), len(query_type)

    def seg(i):
        return ctx.or_(query_type[i] == '?',
                       query_type[i] == event_type[i])

    star = ctx.eq(query_type[-1], '*') if m else False
    # without trailing '*': same length and each subtype matched
    plain = (ctx.and_(*(seg(i) for i in range(m))) if n == m else False)
    # with trailing '*': first m-1 subtypes matched, rest arbitrary
    var = (ctx.and_(*(seg(i) for i in range(m - 1)))
           if m and n >= m - 1 else False)
    return ctx.or_(ctx.and_(star, var), ctx.and_(ctx.not_(star), plain))


def spec_any(ctx, event_type, query_types):
    return ctx.or_(*(spec_matches(ctx, event_type, q) for q in query_types))


# --- events -----------------------------------------------------------------

I64 = 2 ** 63 - 1
U64 = 2 ** 64 - 1


def timestamp(ctx, name, lo=-2 ** 63, hi=2 ** 63 - 1):
    from hat.event import common
    return common.Timestamp(ctx.int(f'{name}_s', lo, hi),
                            ctx.int(f'{name}_us', 0, 999_999))


def opt_timestamp(ctx, name, **kw):
    if ctx.flag(f'{name}_none'):
        return None
    return timestamp(ctx, name, **kw)


def event_id(ctx, name, lo=0, hi=I64):
    from hat.event import common
    return common.EventId(ctx.int(f'{name}_srv', lo, hi),
                          ctx.int(f'{name}_ses', lo, hi),
                          ctx.int(f'{name}_ins', lo, hi))


def payload(ctx, name, kinds=('none', 'json', 'binary')):
    from hat.event import common
    kind = ctx.pick(f'{name}_kind', kinds)
    if kind == 'none':
        return None
    if kind == 'binary':
        return common.EventPayloadBinary(
            type=ctx.text(f'{name}_type', SEGS),
            data=ctx.bytes_(f'{name}_data', 4))
    return common.EventPayloadJson(json_data(ctx, name))


def json_data(ctx, name):
    shape = ctx.pick(f'{name}_json', ['int', 'null', 'bool', 'str', 'list',
                                      'dict'])
    if shape == 'null':
        return None
    if shape == 'bool':
        return ctx.flag(f'{name}_jb')
    if shape == 'str':
        return ctx.text(f'{name}_js', SEGS)
    if shape == 'list':
        return [ctx.int(f'{name}_ji', -I64, I64), []]
    if shape == 'dict':
        return {'k': ctx.int(f'{name}_ji', -I64, I64), '': {}}
    return ctx.int(f'{name}_ji', -I64, I64)


def lt_id(ctx, a, b):
    """Lexicographic order of event ids as a formula"""
    return ctx.or_(
        a.server < b.server,
        ctx.and_(ctx.eq(a.server, b.server),
                 ctx.or_(a.session < b.session,
                         ctx.and_(ctx.eq(a.session, b.session),
                                  a.instance < b.instance))))


def lt_ts(ctx, a, b):
    return ctx.or_(a.s < b.s, ctx.and_(ctx.eq(a.s, b.s), a.us < b.us))
