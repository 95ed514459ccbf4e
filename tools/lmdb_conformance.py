"""Compares the LMDB model with the real library on random operations"""
import os
import random
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pysym import paths
paths.setup_plain()
sys.path.append(paths.VT)
from pysym import lmdbmodel as L


def run(seed):
    rnd = random.Random(seed)
    with tempfile.TemporaryDirectory() as d:
        out = []
        for sym in (False, True):
            L.symbolic = sym
            L.reset()
            rnd.seed(seed)
            log = []
            path = os.path.join(d, f'{sym}.db')
            for _ in range(2):
                env = L.Environment(path, map_size=2 ** 20, subdir=False,
                                    max_dbs=2)
                db = env.open_db(b'x')
                for _ in range(4):
                    write = rnd.random() < .8
                    try:
                        with env.begin(write=write, buffers=True) as txn:
                            with txn.cursor(db) as c:
                                for _ in range(12):
                                    op = rnd.choice(
                                        ['put', 'pop', 'delete', 'first',
                                         'last', 'next', 'prev', 'set_range',
                                         'set_key', 'get', 'replace', 'iter',
                                         'put', 'put', 'rev', 'tput', 'tget',
                                         'tdel', 'tpop'])
                                    k = bytes([rnd.randrange(8)]) * \
                                        rnd.randrange(1, 3)
                                    v = bytes([rnd.randrange(256)])
                                    def b(x):
                                        return bytes(x) if x is not None and \
                                            not isinstance(x, bool) else x
                                    if op in ('put', 'replace') and write:
                                        r = getattr(c, op)(k, v)
                                    elif op == 'pop' and write:
                                        r = c.pop(k)
                                    elif op == 'delete' and write:
                                        r = c.delete()
                                    elif op in ('set_range', 'set_key', 'get'):
                                        r = getattr(c, op)(k)
                                    elif op in ('first', 'last', 'next',
                                                'prev'):
                                        r = getattr(c, op)()
                                    elif op == 'tput' and write:
                                        r = txn.put(k, v, db=db)
                                        c.first()
                                    elif op == 'tget':
                                        r = txn.get(k, db=db)
                                    elif op == 'tdel' and write:
                                        r = txn.delete(k, db=db)
                                        c.first()
                                    elif op == 'tpop' and write:
                                        r = txn.pop(k, db=db)
                                        c.first()
                                    elif op == 'iter':
                                        r = str([(bytes(a), bytes(e))
                                                 for a, e in c]).encode()
                                        c.first()
                                    elif op == 'rev':
                                        r = str([(bytes(a), bytes(e))
                                                 for a, e in
                                                 c.iterprev()]).encode()
                                        c.first()
                                    else:
                                        continue
                                    if op != 'iter' and not r:
                                        c.first()
                                    if op in ('delete', 'pop') and \
                                            not bytes(c.key()):
                                        log.append('end')
                                        c.first()
                                    log.append((op, k, b(r), bytes(c.key()),
                                                bytes(c.value()),
                                                txn.stat(db)['entries']))
                        # txn ends
                                if rnd.random() < .2:
                                    raise KeyError
                    except KeyError:
                        log.append('abort')
                env.close()
            out.append(log)
        for i, (a, b) in enumerate(zip(*out)):
            if a != b:
                print(seed, out[0][max(0, i-4):i], '\nreal ', a, '\nmodel', b)
                return False
        return len(out[0]) == len(out[1])


bad = 0
for s in range(int(sys.argv[1]) if len(sys.argv) > 1 else 300):
    bad += not run(s)
    if bad > 3:
        break
print('mismatches', bad)
