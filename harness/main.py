"""Entry point: ./check C01 -> runs harness/checks_*.py registered function; exit 0 / 1 (+VIOLATION line)."""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common


def main():
    pid = sys.argv[1]
    import registry
    chk = common.Check(pid)
    try:
        registry.run(pid, chk)
    except Exception:
        traceback.print_exc()
        print("MACHINERY-ERROR property=%s" % pid)
        import shutil
        shutil.rmtree(chk.tmp, ignore_errors=True)
        return 2
    return chk.finish()


if __name__ == "__main__":
    sys.exit(main())
