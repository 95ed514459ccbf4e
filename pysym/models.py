"""Environment models installed in symbolic mode."""

import functools

from . import dispatch as D


def _lru_cache(maxsize=128, typed=False):
    if callable(maxsize):
        return _lru_cache()(maxsize)

    def decorator(f):
        cache = D.PDict()

        def wrapper(*args):
            if maxsize == 0:
                return D.call(f, *args)
            found, k = cache._resolve(args)
            if found:
                r = cache.pop(k)
            else:
                r = D.call(f, *args)
                if maxsize is not None and len(cache) >= maxsize:
                    for old in dict.keys(cache):
                        cache.pop(old)
                        break
            cache[args] = r
            return r

        wrapper.cache_clear = cache.clear
        return wrapper

    return decorator


def install():
    from . import dtmodel, lmdbmodel
    dtmodel.install()
    D.register(functools.lru_cache, _lru_cache)
    D.register(functools.cache, lambda f: _lru_cache(None)(f))
    lmdbmodel.install(True)
