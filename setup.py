"""nothing to build ahead: checks compile /repo themselves.  Verifies that the tools are there."""
import shutil, sys
import z3
miss = [t for t in ('clang', 'gcc', 'cvc5') if not shutil.which(t)]
if miss:
    sys.exit('missing tools: %s' % miss)
print('setup ok, z3', z3.get_version_string())
