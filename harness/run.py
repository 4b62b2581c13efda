import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import core  # noqa: E402

if __name__ == "__main__":
    if len(sys.argv) > 1 and sys.argv[1] == "--child":
        core.child_main(sys.argv[2:])
    elif len(sys.argv) > 1 and sys.argv[1] == "--selftest":
        core.setup_env()
        import hypothesis
        import qutip_qtrl

        print("ok hypothesis", hypothesis.__version__, qutip_qtrl.__file__)
    else:
        sys.exit(core.main(sys.argv[1:]))
