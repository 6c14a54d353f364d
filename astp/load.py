"""Builds the AST exporter and exports the type-checked program of /repo's current tree."""
import hashlib
import os
import subprocess
import tempfile
from lib.common import VERIF, REPO, BUILD, Broken, CLANG
from .engine import Program

SRC = os.path.join(VERIF, 'astx/astx.cpp')
LLVM = '/usr/lib/llvm-18'


def exporter():
    os.makedirs(BUILD, exist_ok=True)
    h = hashlib.sha1(open(SRC, 'rb').read()).hexdigest()[:12]
    out = os.path.join(BUILD, 'astx-' + h)
    if os.path.exists(out):
        return out
    tmp = out + '.%d' % os.getpid()
    cmd = [CLANG, '-O0', '-fno-rtti', '-std=c++17', '-w', '-I%s/include' % LLVM, '-D_GNU_SOURCE', '-D__STDC_CONSTANT_MACROS',
           '-D__STDC_FORMAT_MACROS', '-D__STDC_LIMIT_MACROS', SRC, '-o', tmp, '/usr/lib/x86_64-linux-gnu/libclang-cpp.so.18',
           LLVM + '/lib/libLLVM-18.so']
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise Broken('the AST exporter does not build: ' + r.stdout[-2000:])
    os.rename(tmp, out)
    return out


def ast_path(unit='unit.cpp'):
    exe = exporter()
    fd, out = tempfile.mkstemp(prefix='ast.', suffix='.jsonl', dir=BUILD)
    flags = ['-std=c++17', '-Wno-everything', '-fopenmp', '-DNDEBUG', '-I' + REPO, '-I' + VERIF + '/stubs/include',
             '-I' + VERIF + '/stubs/clang', '-isystem', '/usr/include/android', '-isystem', '/usr/include/eigen3',
             '-resource-dir', LLVM + '/lib/clang/18']
    with os.fdopen(fd, 'w') as f:
        r = subprocess.run([exe, REPO, os.path.join(VERIF, 'astx', unit), '--'] + flags, stdout=f, stderr=subprocess.PIPE, text=True)
    if r.returncode:
        os.unlink(out)
        raise Broken('the sources do not type-check: ' + r.stderr[-3000:])
    return out


def program(unit='unit.cpp'):
    cache = os.environ.get('DVOLE_AST')       # development only: reuse an export
    if cache:
        return Program(cache)
    p = ast_path(unit)
    try:
        return Program(p)
    finally:
        os.unlink(p)
