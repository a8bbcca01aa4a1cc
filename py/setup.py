"""Nothing to build ahead: every check compiles what it needs from /repo. Only looks that the tools are there."""
import os
import shutil
import sys
bad = [x for x in ('clang++', 'python3') if not shutil.which(x)]
if not any(os.path.isdir(d) for d in ('/usr/include/eigen3', '/usr/local/include/eigen3')):
    bad.append('Eigen headers')
print('missing: ' + ', '.join(bad) if bad else 'ok')
sys.exit(bool(bad))
