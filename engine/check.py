import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core, threading
def go():
    from registry import REGISTRY
    pid = sys.argv[1]
    if pid not in REGISTRY:
        print("unknown property", pid); os._exit(2)
    try:
        core.main(pid, REGISTRY)
    except SystemExit as x:
        if isinstance(x.code, str): print(x.code); sys.stdout.flush(); os._exit(2)
        sys.stdout.flush(); os._exit(x.code or 0)
    except BaseException:
        import traceback; traceback.print_exc(); sys.stdout.flush(); os._exit(2)
threading.stack_size(512 * 1024 * 1024)
t = threading.Thread(target=go); t.start(); t.join()
