import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from runner import run
from registry import PROPS
if __name__ == '__main__':
    if sys.argv[1] == '--setup':
        from runner import tool_irx
        print(tool_irx()); sys.exit(0)
    p = sys.argv[1]
    sys.exit(run(p, PROPS[p]))
