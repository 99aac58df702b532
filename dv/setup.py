"""setup: nothing to build; checks that the tools the verifier needs are there."""
import shutil, sys
import z3
for t in ('clang++', 'opt', 'llvm-link', 'c++filt'):
    if not any(shutil.which(x) for x in (t, t + '-18')):
        print('missing ' + t)
        sys.exit(1)
print('z3', z3.get_version_string())
