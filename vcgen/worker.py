import json
import os
import sys

sys.setrecursionlimit(20000)

if __name__ == "__main__":
    from vcgen.units import run_unit
    r = run_unit(sys.argv[1], sys.argv[2] == "1")
    tmp = sys.argv[3] + ".part"
    json.dump(r, open(tmp, "w"), default=str)
    os.rename(tmp, sys.argv[3])
