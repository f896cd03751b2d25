"""One verification job in its own process: python3-vt -m pv.job '["module","function",[args]]' -> JSON on the last line."""
import sys, json, importlib, traceback, resource, os
def main():
    mod, fn, args = json.loads(sys.argv[1])
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    sys.setrecursionlimit(20000)
    try:
        r = getattr(importlib.import_module('pv.' + mod), fn)(*args)
    except MemoryError:
        r = dict(label='%s%s' % (fn, args), vcs=[], functions=[], oor='out of memory')
    except BaseException:
        r = dict(label='%s%s' % (fn, args), vcs=[], functions=[], oor='verifier error: ' + traceback.format_exc()[-1500:])
    sys.stdout.write('\n@@' + json.dumps(r, default=str) + '\n'); sys.stdout.flush(); os._exit(0)
if __name__ == '__main__':
    main()
