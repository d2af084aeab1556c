"""Runs the command line tools on text, without touching the file system."""
import io
import importlib
import logging
import sys


def run(module, args, text):
    """what `module` writes on its standard output for the given standard input"""
    m = importlib.import_module(module)
    saved = sys.argv, sys.stdin, sys.stdout, list(logging.root.handlers), logging.root.level
    out = io.StringIO()
    try:
        sys.argv = [module] + list(args)
        sys.stdin = io.StringIO(''.join(t if t.endswith('\n') else t + '\n' for t in text))
        sys.stdout = out
        m.main()
    except SystemExit as e:
        raise RuntimeError('the tool exits with %r' % (e.code,))
    finally:
        sys.argv, sys.stdin, sys.stdout = saved[:3]
        logging.root.handlers[:] = saved[3]
        logging.root.setLevel(saved[4])
    return out.getvalue().split('\n')[:-1]


def written(gcode):
    """what GCode.write produces, as lines"""
    out = io.StringIO()
    gcode.write(out)
    return out.getvalue().split('\n')[:-1]
