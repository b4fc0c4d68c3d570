import os
import re
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from tools import check, config
prop, path = sys.argv[1], sys.argv[2]
t = open(path).read()
if not re.search(r'^INPUT ', t, re.M) and 'no' in t.split('WHAT ')[1][:60]:
    print(t)
    print('no failing input was recorded: re-running the check')
d = re.search(r'^DRIVER (\S+)', t, re.M).group(1)
cfg = config.get(prop)
exe, log = check.build_concrete(os.path.join(check.HERE, 'drivers', d), d[:-4], cfg.get('cxx', ()))
if exe is None:
    print(log)
    sys.exit(1)
rc, out, err = check.run_concrete(exe, ['--replay', path], 120)
os.unlink(exe)
print(out, err)
sys.exit(1 if rc else 0)
