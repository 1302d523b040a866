"""Another process that loads structures: one path per input line, one JSON answer per output line."""
import json
import sys
from . import core


def main():
    core.import_target()
    import casadi_extras as ce
    from .props.c03 import show
    for line in sys.stdin:
        what, path = json.loads(line)
        try:
            a = ['ok', show(ce.structure3.struct_load(path), what)]
        except Exception as e:
            a = ['exc', type(e).__name__]
        sys.stdout.write(json.dumps(a) + '\n')
        sys.stdout.flush()


if __name__ == '__main__':
    main()
