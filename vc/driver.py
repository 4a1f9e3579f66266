"""Driver translation unit: wrappers for the targets of a property, compiled from /repo's current headers both to LLVM IR
(for the verifier) and to a shared object (for replay)."""
import os
import shutil
import subprocess
import tempfile
import engine

CXX = 'clang++-18'
INC = os.environ.get('IEME_INCLUDE', '/repo/include')
BIN = '/usr/lib/llvm-18/bin/'
PRELUDE = '#include <cstring>\n#include <ieme/ieme.hpp>\n#include <chrono>\n#include <cstdint>\n#include <string_view>\n'
# the stream under test: a ghost object to the verifier, a real string stream when run
STREAM = '''#include <cstdio>
#include <istream>
#include <iterator>
#include <ostream>
#include <sstream>
#ifdef VC_NATIVE
static std::stringstream vc_ss;
static std::ostream& vc_ostream() { return vc_ss; }
static std::istream& vc_istream() { return vc_ss; }
static void vc_start(char const* s, unsigned long n) { vc_ss = std::stringstream(std::string(s, n), std::ios::in | std::ios::out | std::ios::ate); }
static void vc_text(char* o) { vc_ss.clear(); auto t = std::string(std::istreambuf_iterator<char>(vc_ss), {}); std::snprintf(o, 4096, "%s", t.c_str()); }
#else
extern "C" std::ostream& vc_ostream();
extern "C" std::istream& vc_istream();
#define vc_start(s, n)
#define vc_text(o)
#endif
'''


class CompileError(Exception):
    pass


def source(targets):
    out = [PRELUDE]
    if any('vc_' in t.cpp for t in targets):
        out.append(STREAM)
    for t in targets:
        if 'pre' in t.extra:
            out.append(t.extra['pre'])
        if t.extra.get('catch'):
            out.append('#ifdef VC_NATIVE\nextern "C" int %s\n{\n  try {\n%s\n  return 0;\n  } catch (...) { return 1; }\n}\n#else' % (engine.signature(t), t.cpp))
        out.append('extern "C" void %s\n{\n%s\n}\n' % (engine.signature(t), t.cpp))
        if t.extra.get('catch'):
            out.append('#endif')
    return '\n'.join(out)


def compile_ir(targets, d, name='drv'):
    src = os.path.join(d, name + '.cpp')
    open(src, 'w').write(source(targets))
    ll = os.path.join(d, name + '.ll')
    p = subprocess.run([CXX, '-std=c++20', '-O0', '-w', '-S', '-emit-llvm', '-I', INC, src, '-o', ll],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise CompileError(p.stdout[-3000:])
    return ll


def compile_errors(targets, d):
    """name -> message of the targets that do not compile on their own"""
    from concurrent.futures import ThreadPoolExecutor
    out = {}

    def group(ts, tag):
        src = os.path.join(d, 'e%s.cpp' % tag)
        open(src, 'w').write(source(ts))
        p = subprocess.run([CXX, '-std=c++20', '-O0', '-w', '-fsyntax-only', '-I', INC, src], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True)
        if not p.returncode:
            return
        if len(ts) == 1:
            out[ts[0].name] = p.stdout[-3000:]
            return
        h = len(ts) // 2
        group(ts[:h], tag + '0')
        group(ts[h:], tag + '1')
    k = max(1, (len(targets) + 31) // 32)
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda i: group(targets[i:i + k], '%d_' % i), range(0, len(targets), k)))
    return out


def compile_so(targets, d, name='drv', std='c++20'):
    src = os.path.join(d, name + '.cpp')
    if not os.path.exists(src):
        open(src, 'w').write(source(targets))
    so = os.path.join(d, name + '.so')
    p = subprocess.run([CXX, '-std=' + std, '-O0', '-w', '-shared', '-fPIC', '-DVC_NATIVE', '-fsanitize=signed-integer-overflow,integer-divide-by-zero,shift,bounds,unreachable,null,return,float-cast-overflow',
                        '-fsanitize-trap=all', '-I', INC, src, '-o', so],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise CompileError(p.stdout[-3000:])
    return so


def demangle(names):
    p = subprocess.run([BIN + 'llvm-cxxfilt'], input='\n'.join(n.lstrip('@').strip('"') for n in names) + '\n', stdout=subprocess.PIPE, text=True)
    out = p.stdout.split('\n')
    return dict(zip(names, out))
