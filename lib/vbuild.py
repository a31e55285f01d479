"""Shared build support for the static checks.

Everything is produced under $VERIF_BUILD (default /verif/.build), keyed by a
hash of the inputs, so each check works from /repo's current tree and never
needs the output of a previous run.
"""
import concurrent.futures, hashlib, json, os, shutil, subprocess, sys, tempfile, time

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, '.build'))
CLANG = 'clang++-20'
JOBS = min(8, os.cpu_count() or 4)


class Broken(Exception):
    """The analysis itself could not be carried out (never a verdict)."""


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(p)
        h.update(b'\0')
    return h.hexdigest()[:20]


def read(path):
    with open(path, 'rb') as f:
        return f.read()


def tree_files(exts, root=None, dirs=None):
    root = root or REPO
    out = []
    for d, sub, fs in os.walk(root):
        sub[:] = [s for s in sub if s not in ('.git', '_build', 'bin', 'obj', 'deps')]
        for f in fs:
            if f.endswith(exts):
                out.append(os.path.join(d, f))
    return sorted(out)


_tree_hash = None


def source_hash():
    """Hash of all of the C++ and proto sources and of the shims."""
    global _tree_hash
    if _tree_hash is None:
        h = hashlib.sha256()
        for f in tree_files(('.hpp', '.cpp', '.h', '.proto', '.cc')):
            if 'generated' in f:
                continue
            h.update(f.encode()); h.update(read(f))
        for f in tree_files(('.h', '.hpp'), os.path.join(VERIF, 'shims')):
            h.update(f.encode()); h.update(read(f))
        _tree_hash = h.hexdigest()[:20]
    return _tree_hash


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)


def proto_gen():
    """protoc over /repo/serialization; returns the include root."""
    protos = [f for f in tree_files(('.proto',)) if '/serialization/' in f]
    if not protos:
        raise Broken('no .proto files under %s/serialization' % REPO)
    key = sha('proto', *[read(f) for f in protos])
    out = os.path.join(BUILD, 'gen-' + key)
    if os.path.exists(os.path.join(out, '.done')):
        return out
    os.makedirs(BUILD, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='gen-', dir=BUILD)
    r = run(['protoc', '-I', REPO, '--cpp_out', tmp,
             '--descriptor_set_out', os.path.join(tmp, 'all.desc'),
             '--include_imports'] +
            [os.path.relpath(f, REPO) for f in protos], cwd=REPO)
    if r.returncode:
        raise Broken('protoc failed: ' + r.stderr.decode()[-2000:])
    open(os.path.join(tmp, '.done'), 'w').close()
    try:
        os.rename(tmp, out)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    return out


def base_flags(gen):
    return ['-std=c++23', '-m64', '-msse4.1', '-include', 'prelude.hpp', '-fPIC',
            '-fbracket-depth=257', '-fdeclspec', '-fexceptions',
            '-ferror-limit=100', '-ffp-contract=off', '-fno-char8_t', '-fno-builtin-std-forward_like',
            '-DPROJECT_DIR=std::filesystem::path("ksp_plugin_adapter/")',
            '-DSOLUTION_DIR=std::filesystem::path("./")',
            '-DTEMP_DIR=std::filesystem::path("/tmp")',
            '-DPLATFORM_WITH_CPU_FEATURES="x64"', '-DNDEBUG',
            '-DPRINCIPIA_REQUIRES_AVX=0', '-DPRINCIPIA_REQUIRES_FMA=0',
            '-I' + os.path.join(VERIF, 'shims'), '-I' + REPO, '-I' + gen]


def interface_gen():
    """Builds tools/generate_profiles and runs it; returns include root holding
    ksp_plugin/interface.generated.h, journal/profiles.generated.h, ..."""
    gen = proto_gen()
    srcs = [os.path.join(REPO, 'tools', f) for f in
            ('generate_profiles.cpp', 'journal_proto_processor.cpp')]
    key = sha('iface', gen, *[read(f) for f in srcs],
              *[read(f[:-4] + '.hpp') for f in srcs])
    out = os.path.join(BUILD, 'iface-' + key)
    if os.path.exists(os.path.join(out, '.done')):
        return out
    tmp = tempfile.mkdtemp(prefix='iface-', dir=BUILD)
    for d in ('journal', 'ksp_plugin', 'ksp_plugin_adapter', 'o'):
        os.makedirs(os.path.join(tmp, d))
    main = os.path.join(tmp, 'main.cpp')
    open(main, 'w').write(
        '#include "tools/generate_profiles.hpp"\n'
        'int main() { principia::tools::_generate_profiles::GenerateProfiles(); }\n')
    flags = [f for f in base_flags(gen) if not f.startswith('-DSOLUTION_DIR')]
    flags += ['-DSOLUTION_DIR=std::filesystem::path(getenv("VOUT"))', '-O0', '-w']
    pbs = [os.path.join(gen, 'serialization', f)
           for f in sorted(os.listdir(os.path.join(gen, 'serialization')))
           if f.endswith('.pb.cc')]

    def comp(f):
        o = os.path.join(tmp, 'o', os.path.basename(f) + '.o')
        r = run([CLANG] + flags + ['-c', f, '-o', o])
        if r.returncode:
            raise Broken('cannot compile %s: %s' % (f, r.stderr.decode()[-3000:]))
        return o
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        objs = list(ex.map(comp, [main] + srcs + pbs))
    exe = os.path.join(tmp, 'gp')
    r = run([CLANG] + objs + ['-lprotobuf', '-labsl_raw_hash_set', '-labsl_hash',
                              '-labsl_status', '-labsl_city', '-labsl_strings',
                              '-labsl_low_level_hash', '-labsl_synchronization',
                              '-labsl_raw_logging_internal', '-o', exe])
    if r.returncode:
        raise Broken('cannot link the profile generator: ' + r.stderr.decode()[-2000:])
    r = run([exe], env=dict(os.environ, VOUT=tmp), timeout=120)
    if r.returncode:
        raise Broken('the profile generator failed: ' + r.stderr.decode()[-2000:])
    shutil.rmtree(os.path.join(tmp, 'o'))
    os.unlink(exe)
    open(os.path.join(tmp, '.done'), 'w').close()
    try:
        os.rename(tmp, out)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    return out


def full_flags():
    gen = proto_gen()
    return base_flags(gen) + ['-I' + interface_gen()]
