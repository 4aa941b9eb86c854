"""run.py <property> <quick|thorough>: decide one property on /repo's current tree."""
import importlib, json, os, shutil, signal, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(REPO, "src"))
sys.dont_write_bytecode = True


WARMUP_LIMIT = 420


def child(prop, tier, seed, status):
    import warnings
    warnings.filterwarnings("ignore")
    import core
    core.OUT = os.fdopen(os.dup(1), "w")
    core.STATUS = status
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)  # the library prints progress messages
    ck = core.Check(prop, tier, seed)
    try:
        mod = importlib.import_module(prop.lower())
        rc = mod.run(ck)
    except core.MachineryError as e:
        core.out("MACHINERY ERROR: " + str(e))
        rc = 2
    except Exception:
        core.out(traceback.format_exc())
        rc = 2
    core.OUT.flush()
    shutil.rmtree(ck.tmp, ignore_errors=True)
    os._exit(rc)


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        os.setpgid(0, 0)
        child(prop, tier, seed, w)
    os.close(w)
    os.set_blocking(r, False)
    since = None
    while True:
        p, st = os.waitpid(pid, os.WNOHANG)
        if p:
            sys.exit(os.waitstatus_to_exitcode(st) if os.WIFEXITED(st) else 2)
        try:
            for c in os.read(r, 100):
                since = time.time() if c == ord("W") else None
        except BlockingIOError:
            pass
        if since and time.time() - since > WARMUP_LIMIT:
            # the very first calls into the library do not return
            os.killpg(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            path = os.path.join(os.path.dirname(HERE), "evidence", "replays", prop + "-hang.json")
            os.makedirs(os.path.dirname(path), exist_ok=True)
            json.dump(dict(property=prop, clause="Terminates", what="the first calls of the scenario driver never return"), open(path, "w"))
            print(f"VIOLATION property={prop} replay={path}")
            sys.exit(1)
        time.sleep(0.05)


main()
