#!/usr/bin/env python3
"""Plant one bug: plant.py ID PROPERTY NEEDS WHAT DEMO.cpp FILE OLD NEW [FILE OLD NEW]...
(called from Python, see plant()).  Confirms build, tests, demo on both trees,
then runs the property's check on the changed tree; always restores /repo."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = r'''#!/bin/bash
# Compiles demo.cpp against the headers and libraries of the built tree.
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
L=/usr/lib/llvm-20/lib
g++ -O1 -w -std=gnu++17 -fno-exceptions -fno-rtti -DNDEBUG -DMARCO_VERSION='"dev"' -I/usr/lib/llvm-20/include \
  -Iinclude -I_build/include "$D/demo.cpp" -o "$T/demo" -L_build/lib -Wl,-rpath,"$PWD/_build/lib" \
  @LIBS@ -L$L -Wl,-rpath,$L -lLLVM-20 @MLIR@ || exit 2
timeout 60 "$T/demo"
'''


PRE = open(os.path.join(V, 'tool', 'parsedemo.h')).read()
PARSE = ('-lMARCOParserBaseModelica -lMARCOASTBaseModelica -lMARCOAST -lMARCOLexer', '-l:libclang-cpp.so.20.1')


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def pplant(id, prop, needs, what, body, edits):
    """Bug in the parser; body: statements of the demonstration, failing through return."""
    f = 'lib/Parser/BaseModelica/Parser.cpp'
    plant(id, prop, needs, what, PRE + '\nstatic bool has(const std::string &s, const char *t) { return s.find(t) != '
          'std::string::npos; }\nint main() {\n' + body + '\n  return 0;\n}\n', [(f, a, b) for a, b in edits], *PARSE)


def plant(id, prop, needs, what, demo, edits, libs='-lMARCOModeling', mlir='', check=True, verbose=True):
    d = V + '/seeded/' + id
    os.makedirs(d, exist_ok=True)
    assert not sh('git -C /repo status --porcelain -uno').stdout, 'dirty'
    with open(d + '/demo.cpp', 'w') as f:
        f.write(demo)
    with open(d + '/demo.sh', 'w') as f:
        f.write(DEMO.replace('@LIBS@', libs).replace('@MLIR@', mlir))
    os.chmod(d + '/demo.sh', 0o755)
    with open(d + '/meta.json', 'w') as f:
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': what}, f, indent=1)
    sh('bash /opt/vp/build.sh')
    r0 = sh(d + '/demo.sh', cwd='/repo')
    if r0.returncode:
        print(id, 'demo fails on the clean tree', r0.stdout[-300:], r0.stderr[-600:])
        return
    try:
        for f, a, b in edits:
            p = '/repo/' + f
            s = open(p).read()
            assert s.count(a) == 1, (id, f, s.count(a), a)
            open(p, 'w').write(s.replace(a, b))
        open(d + '/patch.diff', 'w').write(sh('git -C /repo diff').stdout)
        b = sh('bash /opt/vp/build.sh')
        if b.returncode:
            print(id, 'BUILD FAILS', b.stdout[-800:], b.stderr[-300:])
            return
        sh('bash /opt/vp/test.sh /tmp/plant.json')
        t = json.load(open('/tmp/plant.json'))
        r1 = sh(d + '/demo.sh', cwd='/repo')
        out = ''
        if check:
            c = sh('cd %s && python3 run.py %s' % (V, prop))
            out = 'check exit %d: %s' % (c.returncode, '\n'.join((c.stdout + c.stderr[-500:]).strip().splitlines()[-4:])[:700])
        print(id, 'failed tests', t['failed'] if not t['failed'] else t['failed'][:3] if hasattr(t['failed'], '__len__') else t['failed'],
              '| demo', r1.returncode, r1.stdout[-120:].strip(), r1.stderr[-200:] if r1.returncode == 2 else '', '|', out, flush=True)
    finally:
        sh('git -C /repo checkout -- .')


if __name__ == '__main__':
    for f in sys.argv[1:]:
        exec(open(f).read(), {'plant': plant, 'pplant': pplant, 'PRE': PRE, 'PARSE': PARSE, 'AST': '-lMARCOASTBaseModelica -lMARCOAST -lMARCOParserBaseModelica -lMARCOLexer'})
    print(sh('bash /opt/vp/build.sh').stdout[-80:])
