"""Run in a process of its own: reads pickled arrays, judges and writes to them, and sends them back."""
import os
import pickle
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.realpath(os.environ['VERIF_REPO']))


def fail(*what):
    print(*what, file=sys.stderr)
    sys.exit(3)


def main(path):
    with open(path, 'rb') as f:
        cases = pickle.load(f)
    out = []
    for blob, reads, write, after in cases:
        arrays = pickle.loads(blob)
        for a, [(name, shape, cells)] in zip(arrays, reads):
            if type(a).__name__ != name or tuple(a.shape) != shape:
                fail('type or shape', a, name, shape)
            for i, v in cells:
                if a[i] != v:
                    fail('element', a, i, a[i], v)
        if write:
            j, i, v = write
            arrays[j][i] = v
        for a, cells in zip(arrays, after):
            for i, v in cells:
                if a[i] != v:
                    fail('element after a write', a, i, a[i], v)
        out.append(arrays)
    with open(path + '.out', 'wb') as f:
        pickle.dump(out, f)


main(sys.argv[1])
