"""Worker process: runs items of one task against the code in /repo.
usage: worker.py TASK JOBFILE OUTFILE   (one JSON item per line; one JSON result per line)"""
import asyncio
import faulthandler
import importlib
import json
import os
import sys
import traceback
import warnings

faulthandler.enable()
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
warnings.simplefilter('ignore')
import vloop


def main():
    task, job, out = sys.argv[1:4]
    modname, fn = task.split(':')
    with open(out, 'a') as h:
        try:
            import saltchannel_path  # noqa: F401  (puts /repo first on sys.path)
            mod = importlib.import_module(modname)
        except BaseException as e:
            h.write(json.dumps(['IMPORT', '%s: %s' % (type(e).__name__, e), traceback.format_exc()[-1500:]]) + '\n')
            return 0
        f = getattr(mod, fn)
        loop = vloop.VLoop()
        asyncio.set_event_loop(loop)
        with open(job) as j:
            for line in j:
                i, item = json.loads(line)
                h.write(json.dumps(['B', i]) + '\n')
                h.flush()
                try:
                    bad = f(loop, item)
                except Exception as e:
                    # an exception nobody expected, raised by harness code or by the code under test
                    tb = traceback.extract_tb(e.__traceback__)
                    inrepo = any('/saltchannel/' in fr.filename for fr in tb)
                    # (what the harness trips over is an object of the code under test that lacks what it is documented to have;
                    # trouble with the machine is the machinery's own)
                    mine = isinstance(e, (OSError, MemoryError)) and not inrepo
                    bad = [[-1, 'HARNESS' if mine else 'unexpected', traceback.format_exc()[-2500:]]]
                h.write(json.dumps(['R', i, bad]) + '\n')
                if any(b[1] == 'hang' for b in bad):
                    break           # every check reports a hang; more of them would only cost time
        h.write(json.dumps(['END']) + '\n')
    return 0


if __name__ == '__main__':
    sys.exit(main())
