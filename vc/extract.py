"""Mechanical extraction: the sources of /repo's current working tree are copied to a scratch directory, the
generated headers are regenerated the way the build does it, and the files are compiled by clang to LLVM IR
(-O0; then only opt's sroa, loop-simplify and lcssa: no optimisation that could use undefined behaviour).
What this drops or changes is listed in DESIGN.md (section Extraction)."""
import os, shutil, subprocess, tempfile, atexit

REPO = os.environ.get('VERIF_REPO', '/repo')
CLANG = shutil.which('clang-18') or shutil.which('clang') or 'clang-18'
CLANGXX = shutil.which('clang++-18') or shutil.which('clang++') or 'clang++-18'
OPT = shutil.which('opt-18') or '/usr/lib/llvm-18/bin/opt'


class ExtractError(Exception):
    pass


def sh(cmd, cwd=None, timeout=300):
    r = subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, timeout=timeout, errors='replace')
    if r.returncode:
        raise ExtractError('%s\n%s' % (' '.join(cmd), (r.stdout + r.stderr)[-3000:]))
    return r.stdout


class Source:
    def __init__(s, repo=None):
        s.repo = repo or REPO
        s.dir = tempfile.mkdtemp(prefix='dumav.')
        s.owner = os.getpid()
        atexit.register(s.close)
        s.src = s.dir + '/r'
        os.mkdir(s.src)
        for f in os.listdir(s.repo):
            p = s.repo + '/' + f
            if os.path.isfile(p) and f.endswith(('.h', '.c', '.cpp', '.in')) and f not in ('duma_config.h', 'verinfo.h'):
                shutil.copy(p, s.src)
        for d in ('src', 'stacktrace'):
            if os.path.isdir(s.repo + '/' + d):
                shutil.copytree(s.repo + '/' + d, s.src + '/' + d)
        with open(s.src + '/verinfo.h', 'w') as f:
            f.write('#define GIT_SOURCE_VERSION "verification build"\n')
        sh(['gcc', '-w', '-DDUMA_OLD_NEW_MACRO', s.src + '/createconf.c', '-o', s.dir + '/createconf'])
        sh([s.dir + '/createconf'], cwd=s.src)
        if not os.path.exists(s.src + '/duma_config.h'):
            raise ExtractError('createconf wrote no duma_config.h')

    def close(s):
        if os.getpid() == s.owner and s.dir:
            shutil.rmtree(s.dir, ignore_errors=True)
            s.dir = None

    def ir(s, file, so=False, extra=()):
        """LLVM IR text of one translation unit"""
        cpp = file.endswith('.cpp')
        out = '%s/%s%s.ll' % (s.dir, os.path.basename(file), '.so' if so else '')
        fl = ['-S', '-emit-llvm', '-g', '-O0', '-Xclang', '-disable-O0-optnone', '-fno-discard-value-names', '-fno-builtin',
              '-DDUMA_OLD_NEW_MACRO', '-I' + s.src, '-w'] + (['-DDUMA_SO_LIBRARY'] if so else []) + list(extra)
        if cpp:
            fl.append('-std=gnu++98')
        sh([CLANGXX if cpp else CLANG] + fl + [s.src + '/' + file, '-o', out])
        t = open(out).read()
        import re
        open(out, 'w').write(re.sub(r'\bnoinline\b', '', t))
        sh([OPT, '-passes=function(sroa),function(loop-simplify,lcssa)', '-S', out, '-o', out + '.opt'])
        return open(out + '.opt').read()

    def ir_varargs(s, file):
        """LLVM IR of a translation unit with variadic functions: preprocessed for the native target, then compiled
        for an LP64 target whose va_list is a plain pointer (aarch64-apple), so that va_arg is ordinary code"""
        pre = '%s/%s.i' % (s.dir, os.path.basename(file))
        sh([CLANG, '-E', '-P', '-O0', '-fno-builtin', '-DDUMA_OLD_NEW_MACRO', '-I' + s.src, '-w', s.src + '/' + file, '-o', pre])
        out = pre + '.ll'
        sh([CLANG, '--target=arm64-apple-macosx12', '-S', '-emit-llvm', '-g', '-O0', '-Xclang', '-disable-O0-optnone', '-fno-discard-value-names',
            '-fno-builtin', '-fno-stack-protector', '-w', pre, '-o', out])
        t = open(out).read()
        import re
        open(out, 'w').write(re.sub(r'\bnoinline\b', '', t))
        sh([OPT, '-passes=function(sroa),function(loop-simplify,lcssa)', '-S', out, '-o', out + '.opt'])
        return open(out + '.opt').read()

    def build(s, name, srcs, flags=(), libs=(), files=('src/duma.c', 'src/print.c', 'src/sem_inc.c', 'src/dumapp.cpp'), cc='g++'):
        """concrete exerciser: /repo's sources + a driver, by gcc"""
        objs = []
        procs = []
        for f in files:
            o = '%s/%s.o' % (s.dir, os.path.basename(f))
            objs.append(o)
            if not os.path.exists(o):
                procs.append((['gcc' if f.endswith('.c') else 'g++', '-c', '-g', '-O0', '-w', '-U_FORTIFY_SOURCE', '-DDUMA_OLD_NEW_MACRO', '-I' + s.src] +
                              (['-std=gnu++98'] if f.endswith('.cpp') else []) + [s.src + '/' + f, '-o', o]))
        for f in srcs:
            o = '%s/%s.%s.o' % (s.dir, os.path.basename(f), name)
            objs.append(o)
            procs.append((['gcc' if f.endswith('.c') else 'g++', '-c', '-g', '-O0', '-w', '-I' + s.src, '-U_FORTIFY_SOURCE'] + list(flags) + [f, '-o', o]))
        ps = [(c, subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)) for c in procs]
        for c, p in ps:
            out = p.communicate()[0]
            if p.returncode:
                raise ExtractError(' '.join(c) + '\n' + out.decode(errors='replace')[-3000:])
        exe = '%s/%s' % (s.dir, name)
        sh([cc, '-o', exe] + objs + list(libs) + ['-lpthread', '-ldl'])
        return exe
