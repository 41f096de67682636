#!/usr/bin/env python3
"""run_check.py <ID> [quick|thorough] [--replay S:I] [--only SECTION] [--keep]

Compiles the harness of a property together with /repo's current working tree
(nothing is cached between runs), explores the bounded space, and writes
/verif/evidence/<ID>.json.  Exit 0: held everywhere.  Exit 1: a line
VIOLATION property=<id> replay=<path> was printed.  Exit 2: harness error.
"""
import glob, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('WALNUT_REPO', '/repo')
sys.path.insert(0, VERIF)
from checks import CHECKS

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

# Names of compiler extensions. A portable build hides them from the sources.
EXTENSIONS = ['__SIZEOF_INT128__', '__has_builtin', '__GNUC__', '__clang__']

def portable_copy(bdir):
    top = os.path.join(bdir, 'portable')
    for sub in ('include/walnut', 'src/walnut'):
        os.makedirs(os.path.join(top, sub))
        for f in glob.glob(os.path.join(REPO, sub, '*')):
            if os.path.isfile(f):
                t = open(f).read()
                for name in EXTENSIONS:
                    t = re.sub(r'\b%s\b' % name, 'VERIF_HIDDEN_' + name.strip('_'), t)
                open(os.path.join(top, sub, os.path.basename(f)), 'w').write(t)
    return top

def build(pid, cfg, tier, bdir):
    cxx = cfg.get('cxx', 'g++')
    top = portable_copy(bdir) if cfg.get('portable') else REPO
    flags = ['-std=gnu++14', '-O1', '-w', '-DVERIF_HARNESS', '-I', os.path.join(VERIF, 'harness'),
             '-I', os.path.join(top, 'include')] + cfg.get('flags', [])
    if cfg.get('portable'):
        flags += ['-DVERIF_PORTABLE', '-DVERIF_HIDDEN_has_builtin(x)=0']
    asan = cfg.get('asan', False)
    if asan == 'thorough':
        asan = tier == 'thorough'
    if asan:
        flags += ['-fsanitize=address', '-fno-omit-frame-pointer', '-g1']
    if cfg.get('ubsan'):
        flags += ['-fsanitize=undefined', '-fno-sanitize-recover=undefined']
    srcs = [os.path.join(VERIF, 'harness', s) for s in cfg['src']] + [os.path.join(VERIF, 'harness', 'mc_main.cpp')]
    lib = sorted(glob.glob(os.path.join(top, 'src/walnut/*.cpp')))
    srcs += lib
    vtk = cfg.get('vtk')
    link = []
    if vtk:
        inc, vlink = vtk_flags()
        flags += ['-I', os.path.join(REPO, 'vtk_interface/include')] + inc
        srcs += sorted(glob.glob(os.path.join(REPO, 'vtk_interface/src/*.cpp')))
        link += vlink
    objs = []
    def one(a):
        i, s = a
        o = os.path.join(bdir, '%02d_%s.o' % (i, os.path.basename(s)))
        r = sh([cxx] + flags + ['-c', s, '-o', o])
        return s, o, r
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, enumerate(srcs)))
    for s, o, r in res:
        if r.returncode != 0:
            print('compile error in', s)
            print(r.stdout[-6000:])
            return None
        objs.append(o)
    exe = os.path.join(bdir, 'harness')
    r = sh([cxx] + flags + objs + ['-o', exe] + link)
    if r.returncode != 0:
        print('link error'); print(r.stdout[-6000:])
        return None
    return exe

def vtk_flags():
    inc = None
    for d in sorted(glob.glob('/usr/include/vtk-9*') + glob.glob('/usr/include/vtk*') + glob.glob('/usr/local/include/vtk-9*')):
        if os.path.exists(os.path.join(d, 'vtkPolyData.h')):
            inc = d; break
    libs = []
    libdirs = ['/usr/lib/x86_64-linux-gnu', '/usr/local/lib', '/usr/lib']
    for name in ['CommonCore', 'CommonDataModel', 'CommonExecutionModel', 'FiltersCore', 'FiltersSources', 'FiltersGeneral', 'CommonMath', 'CommonTransforms', 'CommonMisc', 'FiltersModeling', 'FiltersGeometry']:
        for ld in libdirs:
            c = sorted(glob.glob('%s/libvtk%s-9*.so' % (ld, name)) + glob.glob('%s/libvtk%s.so' % (ld, name)))
            if c:
                libs.append(c[0]); break
    return (['-I', inc] if inc else []), libs

def main():
    args = sys.argv[1:]
    pid = args[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(args) > 1 and args[1] in ('quick', 'thorough'):
        tier = args[1]
    cfg = CHECKS[pid]
    t0 = time.time()
    bdir = os.path.join(VERIF, 'build', '%s-%s' % (pid, tier))
    shutil.rmtree(bdir, ignore_errors=True)
    os.makedirs(bdir)
    exe = build(pid, cfg, tier, bdir)
    if exe is None:
        return 2
    tbuild = time.time() - t0
    env = dict(os.environ)
    env['ASAN_OPTIONS'] = 'abort_on_error=1:detect_leaks=0:malloc_fill_byte=165:max_malloc_fill_size=65536:allocator_may_return_null=1:quarantine_size_mb=16:detect_stack_use_after_return=0'
    env['UBSAN_OPTIONS'] = 'abort_on_error=1:print_stacktrace=0'
    env['MALLOC_PERTURB_'] = '165'
    jpath = os.path.join(bdir, 'result.json')
    cmd = [exe, '--tier', tier, '--dir', bdir, '--property', pid, '--json', jpath,
           '--known', os.path.join(VERIF, 'known_findings.txt'),
           '--budget', str(cfg.get('budget', 700 if tier == 'quick' else 7200)),
           '--hang', str(cfg.get('hang', 40 if tier == 'quick' else 200))]
    if '--replay' in args:
        cmd += ['--replay', args[args.index('--replay') + 1]]
    if '--only' in args:
        cmd += ['--only', args[args.index('--only') + 1]]
    r = subprocess.run(['setarch', '-R', 'true'], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    if r.returncode == 0:
        cmd = ['setarch', '-R'] + cmd
    r = subprocess.run(cmd, env=env)
    if '--replay' in args:
        return r.returncode
    if r.returncode not in (0, 1) or not os.path.exists(jpath):
        print('harness error: exit', r.returncode)
        return 2
    res = json.load(open(jpath))
    wall = time.time() - t0
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1')), level='model_checking',
              coverage=dict(states=res['states'], transitions=res['transitions'],
                            traces_validated_against_impl=res['cases'],
                            samples=res['samples'][:24] or ['none'],
                            exhaustive=bool(res['exhaustive'] and '--only' not in args),
                            cases_per_space=res['sections'], states_capped=res['states_capped'],
                            spaces=cfg.get('spaces', ''), notes=res['notes'],
                            build_s=round(tbuild, 1), explore_s=round(res['wall_s'], 1),
                            known_finding_hits=res['known_hits']),
              assumptions=cfg.get('assumptions', []), wall_s=round(wall, 1), violations=res['violations'])
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s %s: cases=%d states=%d transitions=%d exhaustive=%s violations=%d build=%.1fs wall=%.1fs' % (
        pid, tier, res['cases'], res['states'], res['transitions'], res['exhaustive'], res['violations'], tbuild, wall))
    if res['violations']:
        rp = os.path.join(VERIF, 'evidence', pid + '-violation.txt')
        if res['replay'] and os.path.exists(res['replay']):
            shutil.copy(res['replay'], rp)
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        if '--keep' not in args:
            shutil.rmtree(bdir, ignore_errors=True)
        return 1
    if '--keep' not in args:
        shutil.rmtree(bdir, ignore_errors=True)
    return 0

if __name__ == '__main__':
    sys.exit(main())
