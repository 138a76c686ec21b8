#!/usr/bin/env python3
"""mkseed.py ID PROPERTY: reads a JSON spec on stdin {edits:[[file,old,new]...], needs, breaks, modules} and
writes seeded/ID/{patch.diff,meta.json,demo.sh}; demo.cpp is written by hand."""
import json, os, subprocess, sys, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.realpath(__file__)))
sid, prop = sys.argv[1:3]
spec = json.load(sys.stdin)
d = os.path.join(V, 'seeded', sid)
os.makedirs(d, exist_ok=True)
t = tempfile.mkdtemp()
try:
    subprocess.check_call(['git', '-C', '/repo', 'worktree', 'add', '-q', '--detach', t + '/w'])
    w = t + '/w'
    for f, old, new in spec['edits']:
        p = os.path.join(w, f)
        s = open(p).read()
        if s.count(old) != 1:
            sys.exit('%s: %d matches for %r' % (f, s.count(old), old))
        open(p, 'w').write(s.replace(old, new))
    diff = subprocess.check_output(['git', '-C', w, 'diff'], text=True)
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
finally:
    subprocess.call(['git', '-C', '/repo', 'worktree', 'remove', '--force', t + '/w'])
    shutil.rmtree(t, ignore_errors=True)
json.dump({'property': prop, 'needs': spec['needs'], 'what_it_breaks': spec['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
src = spec.get('sources', [])
mods = spec.get('modules', ['Core'])
open(os.path.join(d, 'demo.sh'), 'w').write('''#!/bin/bash
# Compiles the demonstration against QCoro in the current directory and runs it.
set -u
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
out=$(mktemp -d); trap 'rm -r "$out"' EXIT
qt=/usr/include/x86_64-linux-gnu/qt6
inc="-I$qt"; lib=""
mkdir "$out/QCoro"; echo '#include <qcorotask.h>' > "$out/QCoro/QCoroTask"
for m in %s; do inc="$inc -I$qt/$m"; done
for m in %s; do inc="$inc -I$qt/Qt$m"; lib="$lib -lQt6$m"; done
for m in core network dbus websockets qml quick; do
  inc="$inc -I$repo/qcoro/$m"
  # the export headers are generated by the build; everything is compiled in here
  printf '#pragma once\\n#define QCORO%%s_EXPORT\\n#define QCORO%%s_NO_EXPORT\\n' "${m^^}" "${m^^}" > "$out/qcoro${m}_export.h"
done
src=""
for s in %s; do
  src="$src $repo/qcoro/$s"
  /usr/lib/qt6/libexec/moc $inc -I"$repo/qcoro" "$repo/qcoro/$s" -o "$out/$(basename "$s" .cpp).moc" 2>/dev/null
done
for h in %s; do
  /usr/lib/qt6/libexec/moc $inc -I"$repo/qcoro" "$repo/qcoro/$h" -o "$out/moc_$(basename "$h" .h).cpp" && src="$src $out/moc_$(basename "$h" .h).cpp"
done
/usr/lib/qt6/libexec/moc $inc -I"$repo/qcoro" "$here/demo.cpp" -o "$out/demo.moc" 2>/dev/null
export QT_QPA_PLATFORM=offscreen XDG_RUNTIME_DIR="$out" QT_LOGGING_RULES="*.debug=false" ASAN_OPTIONS=%s
g++ -std=c++20 -fPIC -O0 -g -w -fsanitize=address -DQCORO_STATIC -I"$repo" -I"$repo/qcoro" -I"$out" $inc "$here/demo.cpp" $src -o "$out/demo" $lib -lpthread || exit 3
timeout 60 "$out/demo"
''' % (' '.join(spec.get('includes', [])), ' '.join(mods), ' '.join(src), ' '.join(spec.get('headers', [])), 'detect_leaks=%d' % (1 if spec.get('leaks', True) else 0)))
os.chmod(os.path.join(d, 'demo.sh'), 0o755)
