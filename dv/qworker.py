"""Runs the query script as a program for many argument lists in one process: reads JSON lines of arguments, writes JSON lines [exit code, stdout]."""
import contextlib, io, json, os, runpy, sys

script = sys.argv[1]
sys.path[0] = os.path.dirname(script)
for line in sys.stdin:
    argv = json.loads(line)
    buf, err = io.StringIO(), io.StringIO()
    rc = 0
    sys.argv = [script] + argv
    with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(err):
        try:
            runpy.run_path(script, run_name="__main__")
        except SystemExit as e:
            rc = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
        except BaseException as e:
            rc = 1
            err.write(repr(e))
    sys.__stdout__.write(json.dumps([rc, buf.getvalue(), err.getvalue()[-300:]]) + "\n")
sys.__stdout__.flush()
