"""helper to write a planted bug: seed(id, prop, [(file, old, new)...], demo source, needs, breaks)"""
import os, json, difflib, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = '''#!/bin/bash
# compiles the demonstration against the repository in the current directory and runs it in a scratch directory
d=$(cd "$(dirname "$0")" && pwd); r=$PWD
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
g++ -std=c++11 -D_FILE_OFFSET_BITS=64 -fopenmp -O1 -w @FLAGS@-I"$r/_build/include" -I"$r/include" "$d/demo.cpp" "$r/_build/lib/libstxxl_relwithdebinfo.a" -lpthread -lrt -o "$t/demo" || exit 3
cd "$t" && STXXLLOGFILE=/dev/null STXXLERRLOGFILE=/dev/null timeout 120 ./demo >out.txt 2>&1; rc=$?
tail -n 5 out.txt; exit $rc
'''
DEMO_H = '''#include <stxxl/bits/mng/config.h>
#include <stxxl/bits/mng/block_manager.h>
#include <cstdio>
#include <cstdlib>
#include <vector>
#define REQUIRE(c) do { if (!(c)) { printf("FAILED line %d: %s\\n", __LINE__, #c); fflush(stdout); _exit(1); } } while (0)
#include <unistd.h>
static void disks(int n = 1, unsigned mb = 64)
{
    for (int i = 0; i < n; ++i) { char nm[40]; sprintf(nm, "demo%d", i); stxxl::disk_config d(nm, stxxl::uint64(mb) << 20, "memory"); stxxl::config::get_instance()->add_disk(d); }
    stxxl::config::get_instance()->check_initialized();
}
'''
def seed(id, prop, edits, demo, needs, breaks, flags=''):
    d = os.path.join(V, 'seeded', id); os.makedirs(d, exist_ok=True)
    patch = ''
    byfile = {}
    for f, old, new in edits: byfile.setdefault(f, []).append((old, new))
    for f, es in byfile.items():
        a = subprocess.run(['git', '-C', '/repo', 'show', 'HEAD:' + f], stdout=subprocess.PIPE, check=True).stdout.decode()
        b = a
        for old, new in es:
            if b.count(old) != 1: raise SystemExit('%s: %d matches for\n%s' % (id, b.count(old), old))
            b = b.replace(old, new)
        patch += 'diff --git a/%s b/%s\n' % (f, f) + ''.join(difflib.unified_diff(a.splitlines(True), b.splitlines(True), 'a/' + f, 'b/' + f))
    open(os.path.join(d, 'patch.diff'), 'w').write(patch)
    open(os.path.join(d, 'demo.h'), 'w').write(DEMO_H)
    open(os.path.join(d, 'demo.cpp'), 'w').write('#include "demo.h"\n' + demo)
    p = os.path.join(d, 'demo.sh'); open(p, 'w').write(DEMO_SH.replace('@FLAGS@', flags + ' ' if flags else '')); os.chmod(p, 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    subprocess.run(['git', '-C', '/repo', 'apply', '--check', os.path.join(d, 'patch.diff')], check=True)
