#!/usr/bin/env python3
"""checks.py ID[,ID...]: decides properties on the current tree of /repo."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(200000)
import threading
threading.stack_size(512 * 1024 * 1024)
def main():
    import props, lib
    code = 0; first = None
    for pid in sys.argv[1].split(','):
        f, rule = props.P[pid]
        c = lib.Ctx(pid)
        part = os.environ.get('VERIF_PART')  # development aid: 'ts' leaves out the Rust half
        if first is None:
            first = c
            if part == 'ts': c.p, c.front = None, {}
            else: c.load_rust()
        else: c.share(first)
        BUSY[0] = c
        for g in (f if part != 'ts' else None, props.JS.get(pid)):
            try: g and g(c)
            except lib.GaveUp: pass
            except lib.Late: c.add('analysis:time', 'props', 'undecided', 'the analysis ran out of time')
            except Exception as e:
                if os.environ.get('ZK_DEBUG'): raise
                import traceback
                c.add('analysis', 'props', 'undecided', traceback.format_exc()[-600:])
        BUSY[0] = None
        code = max(code, c.finish(rule))
    raise SystemExit(code)
code = [3]
BUSY = [None]
LIMIT = float(os.environ.get('VERIF_LIMIT', '600'))
def late(tid):
    """after LIMIT seconds the analysis is cut short: what is not decided by then is undecided"""
    import time, ctypes
    time.sleep(LIMIT)
    while True:
        if BUSY[0] is not None:
            import lib
            ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(tid), ctypes.py_object(lib.Late))
        time.sleep(20)
def run():
    try: main()
    except SystemExit as e:
        if isinstance(e.code, str): print(e.code, file=sys.stderr); code[0] = 3
        else: code[0] = e.code or 0
    except BaseException:
        import traceback; traceback.print_exc(); code[0] = 3
t = threading.Thread(target=run); t.start()
threading.Thread(target=late, args=(t.ident,), daemon=True).start(); t.join()
sys.stdout.flush(); os._exit(code[0])
