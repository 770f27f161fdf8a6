"""prints an overlay file placing the harness in the repository"""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
repo = sys.argv[1] if len(sys.argv) > 1 else '/repo'
rep = {}
for f in sorted(os.listdir(here)):
    if f.endswith('_test.go'):
        if f.startswith('in_'):      # in_<package dir>_x_test.go goes into that package
            pk = f.split('_')[1]
            rep['%s/%s/zverif_%s' % (repo, pk, f)] = os.path.join(here, f)
        else:
            rep['%s/internal/zverif/%s' % (repo, f)] = os.path.join(here, f)
json.dump({'Replace': rep}, sys.stdout)
