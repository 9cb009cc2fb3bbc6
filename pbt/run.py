"""Usage: python -m pbt.run <property> [--replay file | --clause name]"""
import importlib
import json
import sys

from . import boot  # noqa: F401
from . import core


def load(pid):
    mod = importlib.import_module(f'pbt.props.{pid.lower()}')
    title = next((p['title'] for p in map(json.loads, (core.ROOT / 'properties.jsonl').read_text().splitlines())
                  if p['id'] == pid), '')
    return mod, title


def main():
    pid = sys.argv[1]
    mod, title = load(pid)
    return core.main(pid, title, mod.CLAUSES, getattr(mod, 'ASSUMPTIONS', ()), getattr(mod, 'RULE', ''))


if __name__ == '__main__':
    sys.exit(main())
