#!/usr/bin/env python3
# nothing needs to be installed; verify that the tools the checks use are there
import shutil, sys
missing = [t for t in ('g++', 'ld', 'objcopy', 'addr2line') if not shutil.which(t)]
if missing: print('missing tools:', missing); sys.exit(1)
print('ok')
