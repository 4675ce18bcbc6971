"""Nothing has to be built; checks that the tools are there."""
import shutil, sys
missing = [t for t in ('tlc', 'java') if not shutil.which(t)]
if missing:
    sys.exit('missing: %s' % missing)
print('ok')
