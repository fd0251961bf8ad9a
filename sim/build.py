#!/usr/bin/env python3
"""Builds the simulated system from /repo's working tree: every C++ source of the nodes is compiled, unmodified, against
the simulator's ROS stand-ins. Usage: build.py PROFILE   (main | tools | race).  Prints the path of the binary."""
import hashlib, json, os, re, subprocess, sys, time, glob, shutil
from concurrent.futures import ThreadPoolExecutor
import threading

SIM = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(SIM)
REPO = os.environ.get('SIM_REPO', '/repo')
OUT = os.environ.get('SIM_BUILD', os.path.join(VERIF, 'build'))
CXX = 'clang++'
PKGS = ['serpent', 'eigen_ext', 'eigen_gtsam', 'eigen_ros', 'pointcloud_tools', 'statistics_msgs', 'camera_tools', 'imu_tools', 'navigation_tools']


def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def write_if_changed(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.exists(path) and open(path, encoding='utf-8', errors='surrogateescape').read() == text:
        return
    with open(path, 'w', encoding='utf-8', errors='surrogateescape') as f:
        f.write(text)


def overlays():
    """Mechanical, meaning-preserving rewrites that current compilers/libraries need (see DESIGN.md, Build seams)."""
    ov = os.path.join(OUT, 'ov')
    # 1. A default template argument may not be repeated on the definition of a function template (older gcc let it pass).
    d = os.path.join(REPO, 'pointcloud_tools/include/pointcloud_tools/impl')
    for f in glob.glob(os.path.join(d, '*.hpp')):
        s = open(f, encoding='utf-8', errors='surrogateescape').read()
        if 'pclpointcloud2_utilities' in f:
            s = re.sub(r'template<typename T = (double|float)>', 'template<typename T>', s)
        write_if_changed(os.path.join(ov, 'pointcloud_tools/impl', os.path.basename(f)), s)
    # 2. Eigen 3.3, for which /repo is written, returns a plain matrix from Transform::rotation().
    e = '/usr/include/eigen3/Eigen'
    s = open(e + '/src/Geometry/Transform.h').read()
    s, n = re.subn(r'typedef typename internal::conditional<int\(Mode\)==Isometry,\s*ConstLinearPart,\s*const LinearMatrixType>::type RotationReturnType;',
                   'typedef const LinearMatrixType RotationReturnType;', s)
    if n == 1:
        write_if_changed(ov + '/Eigen/src/Geometry/Transform.h', s)
        write_if_changed(ov + '/Eigen/Geometry', open(e + '/Geometry').read())
    return ov


def base_flags(ov, profile):
    f = ['-std=c++17', '-O0', '-g0', '-w', '-Wno-narrowing', '-DPCL_NO_PRECOMPILE', '-D_GLIBCXX_ASSERTIONS', '-fno-omit-frame-pointer',
         '-I' + ov, '-I' + SIM + '/include', '-I' + OUT + '/gen']
    f += ['-I%s/%s/include' % (REPO, p) for p in PKGS]
    for d in ('/usr/include/pcl-1.14', '/usr/include/eigen3', '/usr/include/eigen3/Eigen', '/usr/include/opencv4'):
        f += ['-isystem', d]
    return f


class TU:
    def __init__(self, src, name=None, flags=(), pch=True, prio=0, instrument=False):
        self.src, self.flags, self.pch, self.prio, self.instrument = src, list(flags), pch, prio, instrument
        self.name = name or re.sub(r'[^A-Za-z0-9]+', '_', os.path.relpath(src, '/')).strip('_')


def file_hash(p, cache={}):
    try:
        st = os.stat(p)
    except OSError:
        return 'missing'
    k = (p, st.st_mtime_ns, st.st_size)
    if k not in cache:
        cache[k] = hashlib.sha1(open(p, 'rb').read()).hexdigest()
    return cache[k]


def deps_of(dfile):
    s = open(dfile).read().replace('\\\n', ' ')
    return [x for x in s.split(':', 1)[1].split() if not x.startswith('/usr/')]


class Builder:
    def __init__(self, profile):
        self.profile = profile
        self.race = profile == 'race'
        self.obj = os.path.join(OUT, profile)
        os.makedirs(self.obj, exist_ok=True)
        os.makedirs(os.path.join(OUT, 'gen'), exist_ok=True)
        r = sh([sys.executable, SIM + '/genmsg.py', OUT + '/gen'] + sorted(glob.glob(SIM + '/msg/*')) +
               [REPO + '/' + p for p in ('serpent', 'eigen_ros', 'pointcloud_tools', 'statistics_msgs')])
        if r.returncode:
            raise RuntimeError('message generation failed:\n' + r.stdout)
        self.ov = overlays()
        self.flags = base_flags(self.ov, profile)
        self.log = []
        self.lock = threading.Lock()
        self.pch_ready = {False: threading.Event(), True: threading.Event()}
        self.pch = {}
        self.compiled = 0

    def up_to_date(self, out, cmd):
        meta = out + '.meta'
        if not (os.path.exists(out) and os.path.exists(meta)):
            return False
        m = json.load(open(meta))
        return m['cmd'] == cmd and all(file_hash(p) == h for p, h in m['deps'].items())

    def run(self, cmd, out, dfile):
        if self.up_to_date(out, cmd):
            return 0, ''
        r = sh(cmd)
        if r.returncode == 0:
            m = {'cmd': cmd, 'deps': {p: file_hash(p) for p in deps_of(dfile)}}
            json.dump(m, open(out + '.meta', 'w'))
            with self.lock:
                self.compiled += 1
        return r.returncode, r.stdout

    def build_pch(self, instrument=False, header='pch_all.hpp'):
        out = os.path.join(self.obj, header + ('.i' if instrument else '') + '.pch')
        d = out + '.d'
        cmd = [CXX] + self.flags + (['-fsanitize=thread'] if instrument else []) + ['-x', 'c++-header', SIM + '/include/' + header, '-o', out, '-MD', '-MF', d, '-fpch-instantiate-templates']
        rc, o = self.run(cmd, out, d)
        self.pch[instrument] = out if rc == 0 else None
        self.pch_ready[instrument].set()

    def compile(self, tu):
        out = os.path.join(self.obj, tu.name + '.o')
        d = out + '.d'
        t0 = time.time()
        inst = self.race and tu.instrument
        if tu.pch:
            self.pch_ready[inst].wait()
        pch = self.pch[inst] if tu.pch else None
        pre = ['-include-pch', pch] if pch else ['-include', SIM + '/include/compat.hpp']
        extra = ['-fsanitize=thread'] if inst else []
        cmd = [CXX] + self.flags + extra + pre + tu.flags + ['-c', tu.src, '-o', out, '-MD', '-MF', d]
        if pch:
            cmd += ['-DSIM_PCH=' + file_hash(pch)[:8]]
        rc, o = self.run(cmd, out, d)
        if os.environ.get('SIM_BUILD_VERBOSE'):
            print('%6.1f %s rc=%d' % (time.time() - t0, tu.name, rc), file=sys.stderr)
        return tu, out, rc, o

    def compile_all(self, tus):
        """Returns (objects, failures)."""
        objs, fails = [], []
        ths = [threading.Thread(target=self.build_pch, args=(i,)) for i in ([False, True] if self.race else [False])]
        for th in ths:
            th.start()
        first = [t for t in tus if not t.pch]
        rest = sorted([t for t in tus if t.pch], key=lambda t: -t.prio)
        with ThreadPoolExecutor(max_workers=8) as ex:
            for tu, out, rc, o in ex.map(self.compile, sorted(first, key=lambda t: -t.prio) + rest):
                if rc:
                    fails.append((tu, o))
                else:
                    objs.append(out)
        for th in ths:
            th.join()
        return objs, fails


def repo_lib_sources():
    s = []
    for sub in ('front_end', 'back_end', 'mapping', 'utils'):
        s += glob.glob(REPO + '/serpent/src/%s/**/*.cpp' % sub, recursive=True)
    s += [f for f in glob.glob(REPO + '/eigen_ros/src/**/*.cpp', recursive=True) if not f.endswith('_node.cpp')]
    s += glob.glob(REPO + '/eigen_gtsam/src/**/*.cpp', recursive=True)
    s += [f for f in glob.glob(REPO + '/pointcloud_tools/src/**/*.cpp', recursive=True)
          if not re.search(r'(_main|compute_distances\w*|pointcloud_analyser|pointcloud_file_converter\w*)\.cpp$', f)]
    return sorted(s)


def repo_tool_sources():
    s = []
    for p in ('camera_tools', 'imu_tools', 'navigation_tools'):
        s += [f for f in glob.glob(REPO + '/%s/src/**/*.cpp' % p, recursive=True) if 'graph_test' not in f]
    s += [f for f in glob.glob(REPO + '/pointcloud_tools/src/pointcloud_analyser*.cpp')]
    return sorted(s)


PRIO = {'optimisation.cpp': 9, 'graph_manager.cpp': 8, 'frontend.cpp': 7, 'node.cpp': 9, 'backend_node.cpp': 9, 'frontend_node.cpp': 8,
        'registration_covariance.cpp': 7, 'utilities.cpp': 6}


def main_name(f):
    return 'sim_main_' + re.sub(r'[^A-Za-z0-9]+', '_', os.path.basename(f)[:-4])


def tu_for(f, race=False, extern=True):
    fl = []
    txt = open(f, encoding='utf-8', errors='replace').read()
    if re.search(r'\bmain\s*\(', txt):
        fl.append('-Dmain=' + main_name(f))
        if '/serpent/src/nodes/' in f and extern and not f.endswith('stereo_pipeline_node.cpp'):
            fl += ['-include', SIM + '/src/extern_templates.hpp']
    return TU(f, flags=fl, prio=PRIO.get(os.path.basename(f), 1), instrument=True)


INSTANCES = {
    'reg_pn': ('serpent/front_end/lidar/registration.hpp', 'serpent::Registration<pcl::PointNormal>'),
    'reg_pnu': ('serpent/front_end/lidar/registration.hpp', 'serpent::Registration<PointNormalUnit>'),
    'norm_pn': ('serpent/front_end/lidar/pointcloud_normal_estimation.hpp', 'serpent::PointcloudNormalEstimation<pcl::PointXYZ, pcl::PointNormal>'),
    'norm_pnu': ('serpent/front_end/lidar/pointcloud_normal_estimation.hpp', 'serpent::PointcloudNormalEstimation<PointUnit, PointNormalUnit>'),
    'map_pn': ('serpent/mapping/mapping.hpp', 'serpent::Mapping<pcl::PointNormal>'),
    'map_pnu': ('serpent/mapping/mapping.hpp', 'serpent::Mapping<PointNormalUnit>'),
}

LIBS = ['-lgtsam', '-ltbb', '-lboost_serialization', '-lboost_system', '-lboost_filesystem', '-lboost_thread', '-lboost_timer', '-lboost_chrono',
        '-lpcl_common', '-lpcl_kdtree', '-lpcl_octree', '-lpcl_search', '-lpcl_features', '-lpcl_filters', '-lpcl_sample_consensus', '-lpcl_registration',
        '-lopencv_core', '-lopencv_features2d', '-lopencv_imgproc', '-lopencv_calib3d', '-lopencv_video', '-lopencv_flann', '-lflann_cpp', '-llz4', '-ldl', '-lpthread']


def build(profile):
    b = Builder(profile)
    for k, (h, c) in INSTANCES.items():
        write_if_changed(os.path.join(OUT, 'inst', k + '.cpp'),
                         '#include <pointcloud_tools/point_types.hpp>\n#include "%s"\ntemplate class %s;\n' % (h, c))
    harness = sorted(glob.glob(SIM + '/src/*.cpp'))
    skip = {'race_off.cpp'} if b.race else {'race_on.cpp'}
    skip |= {'main_tools.cpp'} if profile != 'tools' else {'main_serpent.cpp'}
    hs = [TU(f, prio=5, pch='race_on' not in f, flags=['-O2'] if 'race_on' in f else []) for f in harness if os.path.basename(f) not in skip and (profile == 'tools' or not os.path.basename(f).startswith('tools_'))
          and (profile != 'tools' or not os.path.basename(f).startswith('serpent_'))]

    def attempt(split):
        tus = list(hs)
        if profile == 'tools':
            tus += [tu_for(f) for f in repo_lib_sources() if '/eigen_ros/' in f or '/eigen_gtsam/' in f or '/pointcloud_tools/' in f]
            tus += [tu_for(f) for f in repo_tool_sources()] + [tu_for(REPO + '/eigen_ros/src/body_frames_tf_node.cpp')]
        else:
            tus += [tu_for(f) for f in repo_lib_sources()]
            tus += [tu_for(f, extern=split) for f in sorted(glob.glob(REPO + '/serpent/src/nodes/*.cpp'))]
            if split:
                tus += [TU(os.path.join(OUT, 'inst', k + '.cpp'), pch=False, prio=9 if k.startswith('reg') else 8, instrument=True) for k in INSTANCES]
        return b.compile_all(tus)
    objs, fails = attempt(True)
    if fails and profile != 'tools':
        objs, fails = attempt(False)
    if fails:
        for tu, o in fails:
            sys.stderr.write('compilation of %s failed:\n%s\n' % (tu.src, o[-4000:]))
        raise SystemExit(3)
    exe = os.path.join(b.obj, 'sim')
    objs = sorted(objs)
    key = hashlib.sha1(('\n'.join(o + file_hash(o) for o in objs)).encode()).hexdigest()
    stamp = exe + '.key'
    if not (os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == key):
        r = sh([CXX, '-o', exe, '-rdynamic', '-Wl,-z,muldefs', '-no-pie'] + objs + LIBS)
        if r.returncode:
            sys.stderr.write('link failed:\n' + r.stdout[-6000:])
            raise SystemExit(3)
        open(stamp, 'w').write(key)
    return exe


if __name__ == '__main__':
    t = time.time()
    p = build(sys.argv[1] if len(sys.argv) > 1 else 'main')
    sys.stderr.write('built in %.1f s\n' % (time.time() - t))
    print(p)
