"""Regenerates schema repositories of hat.event.common (git-ignored build
products) from current schemas, if they are missing or stale."""

import os
import sys
from pathlib import Path


def main(repo):
    import hat.json
    import hat.sbs
    root = Path(repo)
    common = root / 'src_py/hat/event/common'
    targets = [
        (common / 'json_schema_repo.json',
         lambda: hat.json.create_schema_repository(
             *sorted((root / 'schemas_json').rglob('*.yaml')))),
        (common / 'sbs_repo.json',
         lambda: hat.sbs.Repository(
             *sorted((root / 'schemas_sbs').rglob('*.sbs'))).to_json())]
    for path, gen in targets:
        data = gen()
        try:
            def key(x):
                return sorted(map(repr, x)) if isinstance(x, list) else x
            if key(hat.json.decode_file(path)) == key(data):
                continue
        except Exception:
            pass
        tmp = path.with_name(f'{path.stem}.{os.getpid()}.json')
        try:
            hat.json.encode_file(data, tmp, indent=None)
            os.replace(tmp, path)
        finally:
            if tmp.exists():
                tmp.unlink()


if __name__ == '__main__':
    main(sys.argv[1])
