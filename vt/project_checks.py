"""Generated projects and the installed library, configured and built with CMake."""
import json, os, random, shutil, time
from . import common, pkgen, pkmodel, def_checks
from .common import Check, thorough, REPO, run

NAMES = ['proj', 'radio', 'Radio_2', 'my-radio', 'v49.2', 'a/b/proj', 'deep/er', './here', 'slash/', '../beside', '<absolute>', '<absolute>/under/it', '<cwd>']

def case(seed):
    rng = random.Random(seed)
    w = def_checks.p32_case(rng.getrandbits(64))
    w['opts'] = [o for o in w['opts'] if o not in ('-p', '--project')]
    w['opts'].insert(rng.choice([0, len(w['opts'])]), rng.choice(['-p', '--project']))
    w['dir'] = rng.choice(NAMES)
    return w

def put(root, files):
    for n, t in files.items():
        p = os.path.join(root, n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'w') as f:
            f.write(t)

def brief(out):
    ls = out.strip().split('\n')
    k = [i for i, l in enumerate(ls) if 'rror' in l]
    return ' / '.join(ls[k[0]:k[0] + 6] if k else ls[-6:])[:900]

STUB = 'if(NOT TARGET cnats::nats)\n  add_library(cnats::nats INTERFACE IMPORTED)\nendif()\n'

def build_project(w):
    """What goes wrong when the project is generated, configured, built and run; '' if nothing."""
    top = common.workdir() + '/pr_%016x' % random.SystemRandom().getrandbits(64)
    cwd = top + '/work/cwd-dir'
    os.makedirs(cwd)
    os.makedirs(top + '/stub')
    put(top + '/stub', {'cnatsConfig.cmake': STUB})
    put(cwd, w['files'])
    d = w['dir'].replace('<absolute>', top + '/abs-dir')
    try:
        dirs = [] if d == '<cwd>' else ['--dir', d]
        # from the directory of the files, as a user does
        rc, out = run([common.PY, '-B', '-W', 'ignore', '-m', 'vrtgen.main', 'cpp', *dirs, *w['opts'], *w['mains']], cwd=cwd,
                      env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONPATH=os.path.join(REPO, 'src')))
        if rc:
            return 'the generator ends with status %d: %s' % (rc, out.strip()[-500:])
        p = cwd if d == '<cwd>' else os.path.normpath(os.path.join(cwd, d))
        b = top + '/build'
        rc, out = run(['cmake', '-S', p, '-B', b, '-DFETCHCONTENT_SOURCE_DIR_VRTGEN=' + REPO, '-DFETCHCONTENT_FULLY_DISCONNECTED=ON',
                       '-Dcnats_DIR=' + top + '/stub', '-DCMAKE_CXX_COMPILER=g++', '-DCMAKE_CXX_FLAGS=-w -O0'])
        if rc:
            return 'the project does not configure: ' + brief(out)
        rc, out = run(['cmake', '--build', b, '-j', '2'], timeout=800)
        if rc:
            return 'the project does not build: ' + brief(out)
        exe = os.path.join(b, 'src', 'bin', os.path.basename(p))
        if not os.path.isfile(exe):
            return 'the project builds no program named after it (%s)' % os.path.basename(p)
        rc, out = run([exe], timeout=60)
        if rc:
            return 'the program of the project ends with status %d' % rc
        return ''
    finally:
        shutil.rmtree(top, True)

CONSUMER = '''cmake_minimum_required(VERSION 3.15)
project(consumer LANGUAGES CXX)
find_package(vrtgen %s REQUIRED)
add_executable(consumer main.cpp %s)
target_link_libraries(consumer PRIVATE vrtgen::vrtgen)
'''

def installed(rng):
    """The library installed and used through find_package, pkg-config and as a subdirectory: (what goes wrong, definitions)."""
    top = common.workdir() + '/in_%016x' % random.SystemRandom().getrandbits(64)
    prefix = top + rng.choice(['/prefix', '/p/with/depth', '/usr/local'])
    pks = [pkmodel.make(pkgen.gen_def(rng, 'Pk%d' % i, k)) for i, k in enumerate(rng.sample(['context', 'control', 'data', 'extcontext'], 2))]
    text = '\n'.join(p.yaml() for p in pks)
    how = rng.choice(['find_package', 'find_package', 'pkg-config', 'subdirectory', 'headers'])
    os.makedirs(top + '/use')
    try:
        put(top + '/use', {'d.yaml': text})
        rc, out = run([common.PY, '-B', '-W', 'ignore', '-m', 'vrtgen.main', 'cpp', '--dir', '.', '--namespace', 'ns', 'd.yaml'], cwd=top + '/use',
                      env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONPATH=os.path.join(REPO, 'src')))
        if rc:
            return 'the generator ends with status %d: %s' % (rc, out.strip()[-500:]), text, how
        main = ''.join('#include "%s.hpp"\n' % p.file for p in pks) + '#include <vrtgen/vrtgen.hpp>\n#include <vrtgen/packing.hpp>\n#include <vrtgen/socket.hpp>\n#include <vrtgen/types.hpp>\n#include <vrtgen/utility.hpp>\n' + \
            'int main() { return %s; }\n' % ' + '.join('(ns::packets::%s{}.data().size() ? 0 : 1)' % p.cls_name for p in pks)
        src = ' '.join(p.file + '.cpp' for p in pks)
        put(top + '/use', {'main.cpp': main})
        if how not in ('subdirectory', 'headers'):
            rc, out = run(['cmake', '-S', REPO, '-B', top + '/lib', '-DCMAKE_INSTALL_PREFIX=' + prefix])
            if rc == 0:
                rc, out = run(['cmake', '--build', top + '/lib', '--target', 'install'])
            if rc:
                return 'the library does not install: ' + brief(out), text, how
        if how in ('find_package', 'subdirectory'):
            ver = rng.choice(['', '', [l for l in open(REPO + '/CMakeLists.txt') if l.startswith('project(')][0].split('VERSION')[1].split()[0]])
            txt = CONSUMER % (ver, src)
            if how == 'subdirectory':
                txt = txt.replace('find_package(vrtgen %s REQUIRED)' % ver, 'add_subdirectory(%s vrt)' % REPO)
            put(top + '/use', {'CMakeLists.txt': txt})
            rc, out = run(['cmake', '-S', top + '/use', '-B', top + '/out', '-DCMAKE_PREFIX_PATH=' + prefix, '-DCMAKE_CXX_COMPILER=g++', '-DCMAKE_CXX_FLAGS=-w'])
            if rc == 0:
                rc, out = run(['cmake', '--build', top + '/out'])
            if rc:
                return 'a program that uses the library (%s) does not build: %s' % (how, brief(out)), text, how
            exe = top + '/out/consumer'
        else:
            flags = ['-std=c++20', '-I' + REPO + '/include']
            if how == 'pkg-config':
                rc, out = run(['pkg-config', '--cflags', 'vrtgen'], env=dict(os.environ, PKG_CONFIG_PATH=prefix + '/share/pkgconfig', PKG_CONFIG_ALLOW_SYSTEM_CFLAGS='1'))
                if rc:
                    return 'pkg-config: ' + out, text, how
                flags = ['-std=c++20'] + out.split()
            exe = top + '/out.exe'
            rc, out = run(['g++', '-w', *flags, 'main.cpp', *src.split(), '-o', exe], cwd=top + '/use')
            if rc:
                return 'a program that uses the library (%s, flags %s) does not build: %s' % (how, flags, brief(out)), text, how
        rc, out = run([exe], timeout=60)
        return ('the program ends with status %d' % rc if rc else ''), text, how
    finally:
        shutil.rmtree(top, True)

def p34():
    c = Check('P34', 'a project generated from definitions over several files with random options and directory, configured and built with CMake, or a program built against the installed library; distinct by files, options and directory',
              assumptions=['where the project fetches vrtgen from the network it is given the tree under test (FETCHCONTENT_SOURCE_DIR_VRTGEN), and a stand-in for the package cnats',
                           'the directory name is a CMake target name', 'no packet is named like a C++ keyword'])
    until = c.t0 + 600 if thorough() else None
    kinds = {}
    r = 0
    while True:
        seeds = [c.rng.getrandbits(64) for _ in range(14)]
        seeds = seeds[:9] + [('use', s) for s in seeds[9:]]
        def go(s):
            if isinstance(s, tuple):
                why, text, how = installed(random.Random(s[1]))
                return why, dict(definitions=text, how=how), how
            w = case(s)
            return build_project(w), dict(files=w['files'], mains=w['mains'], options=w['opts'], dir=w['dir']), 'project ' + w['dir']
        for s, (v, err) in zip(seeds, common.pmap(go, seeds, 8)):
            if err:
                raise err
            why, rep, kind = v
            c.case(json.dumps(rep, sort_keys=True))
            kinds[kind] = kinds.get(kind, 0) + 1
            c.sample((kind + ': ' + json.dumps(rep))[:400])
            if why and len(c.violations) < 3:
                if 'files' in rep:
                    # smaller: single packets of the arrangement, then the directory alone
                    for name in ('proj', rep['dir']):
                        w = dict(files={'d.yaml': 'Pk0 : !Context\n'+'  cif_0 : !CIF0\n    bandwidth : required\n'}, mains=['d.yaml'], opts=['--project'], dir=name)
                        y = build_project(w)
                        if y:
                            why, rep = y, dict(files=w['files'], mains=w['mains'], options=w['opts'], dir=name); break
                c.violation('%s\n%s' % (why, json.dumps({k: v for k, v in rep.items() if k not in ('files', 'definitions')})), dict(rep, why=why, seed=s if not isinstance(s, tuple) else s[1]))
        r += 1
        if c.violations or until is None or time.time() > until:
            break
    c.extra['cases by kind'] = dict(sorted(kinds.items()))
    return c.finish()
