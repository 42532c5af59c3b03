"""Nothing to build ahead of time: checks compile their harness from /repo's working tree.
Confirms that the tools the checks need are present."""
import shutil, sys, os
missing = [t for t in ('g++', 'java') if not shutil.which(t)]
jar = '/opt/veriftools/tla/tla2tools.jar'
if not os.path.exists(jar): missing.append(jar)
print('missing: %s' % missing if missing else 'ok')
sys.exit(1 if missing else 0)
