#!/usr/bin/env python3
"""build.py VARIANT TARGET...   builds /repo's libraries and the named checkers.

VARIANT: rel (-O1) | asan (address + undefined) | tsan.  Sources are synchronised by
content from /repo's working tree into build/tree, so a stale time stamp can never
hide a change.  TARGET: a key of TARGETS below, or 'libs'.
"""
import fcntl, hashlib, os, re, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE); B = ROOT + '/build'
REPO = os.environ.get('VERIF_REPO', '/repo')
LIBS = ['app-framework/libPlexilAppFramework.a', 'xml-parser/libPlexilXmlParser.a', 'exec/libPlexilExec.a', 'intfc/libPlexilIntfc.a',
        'expr/libPlexilExpr.a', 'value/libPlexilValue.a', 'utils/libPlexilUtils.a']
CORE = LIBS[1:]
UDP = ['interfaces/UdpAdapter/libUdpAdapter.a', 'interfaces/UdpAdapter/libUdpUtils.a']
APP = LIBS + UDP + ['interfaces/LuvListener/libLuvListener.a', 'interfaces/PlanDebugListener/libPlanDebugListener.a', 'interfaces/Sockets/libPlexilSockets.a']
INC = ['utils', 'value', 'expr', 'intfc', 'exec', 'xml-parser', 'app-framework', 'interfaces/UdpAdapter', 'interfaces/LuvListener', 'interfaces/PlanDebugListener', 'interfaces/Sockets', 'apps/TestExec', 'apps/StandAloneSimulator', 'universal-exec']
# name: (sources, libraries, extra flags, extra link)
TARGETS = {
  'exprmc': (['expr/env.cc', 'expr/exprmc.cc', 'expr/seqmc.cc', 'expr/lkmc.cc'], CORE, '', ''),
  'valmc': (['val/valmc.cc'], CORE, '', ''),
  'appmc': (['app/appmc.cc', 'app/queuemc.cc'], APP, '', ''),
  'lifemc': (['app/lifemc.cc'], APP, '', ''),
  'testmc': (['apps/testmc.cc', 'apps/te.cc', 'apps/tei.cc', 'apps/ue.cc'], APP, '-O0 -ftrivial-auto-var-init=pattern', ''),
  'schedmc': (['sched/schedmc.cc', 'sched/rt.cc'], APP, '', '-no-pie'),
  'timemc': (['sched/timemc.cc', 'sched/rt.cc'], APP, '', '-no-pie'),
  'simmc': (['sched/simmc.cc', 'sched/rt.cc'] + ['@apps/StandAloneSimulator/%s.cc' % x for x in ('Simulator', 'Agenda', 'CommandResponseManager', 'TimingService', 'LineInStream', 'ResponseFactory', 'PlexilSimResponseFactory', 'SimulatorScriptReader')], CORE, '', '-no-pie'),
  'udpmc': (['udp/udpmc.cc'], APP, '', '-Wl,--wrap=_ZN6PLEXIL16makeUdpEventLoopEv'),
  'luvmc': (['luv/luvmc.cc', 'luv/luvnet.cc'], APP, '', ''),
  'pstmc': (['pst/pstmc.cc'], CORE, '', ''),
  'plcmc': (['plc/plcmc.cc'], CORE, '', ''),
  'parsemc': (['parse/parsemc.cc'], CORE, '', ''),
  'execmc': (['exec/ref.cc', 'exec/real.cc', 'exec/families.cc', 'exec/families2.cc'], CORE, '', ''),
}
SAN = {'rel': '', 'asan': '-fsanitize=address,undefined -fno-sanitize=vla-bound -fno-sanitize=vptr -fno-sanitize-recover=undefined -fno-omit-frame-pointer', 'tsan': '-fsanitize=thread',
  # compiled with the thread instrumentation but linked with our own run time (sched/rt.cc)
  'sched': '-fsanitize=thread'}
OPT = '-O1 -g1'

def fail(msg):
    sys.stderr.write(msg + '\n'); sys.exit(2)
def sh(cmd, log, env=None):
    with open(log, 'w') as f:
        if subprocess.call(cmd, stdout=f, stderr=subprocess.STDOUT, env=env):
            fail('build failed: %s\n%s' % (' '.join(cmd), open(log, errors='replace').read()[-6000:]))
def lock(name):
    os.makedirs(B, exist_ok=True); f = open(B + '/.lock.' + name, 'w'); fcntl.flock(f, fcntl.LOCK_EX); return f
def sync():
    T = B + '/tree'; os.makedirs(T + '/src', exist_ok=True)
    subprocess.check_call(['rsync', '-rl', '--checksum', '--delete', '--exclude=/third-party/pugixml', '--exclude=.git', REPO + '/src/', T + '/src/'])
    subprocess.check_call(['rsync', '-rl', '--checksum', REPO + '/CMakeLists.txt', T + '/'])
    pug = T + '/src/third-party/pugixml'
    if os.path.islink(pug) or not os.path.exists(pug):
        os.makedirs(os.path.dirname(pug), exist_ok=True)
        if os.path.lexists(pug): os.unlink(pug)
        os.symlink('/opt/vp/shim/pugixml', pug)
def libs(v):
    d = B + '/' + v; fl = '-Wno-error -w %s -DNDEBUG %s' % (OPT, SAN[v])
    env = dict(os.environ, CC='gcc', CXX='g++', CCACHE_DISABLE='1')
    if not os.path.exists(d + '/build.ninja'):
        shutil.rmtree(d, ignore_errors=True)
        sh(['cmake', '-S', B + '/tree', '-B', d, '-G', 'Ninja', '-DCMAKE_BUILD_TYPE=None', '-DCMAKE_POLICY_VERSION_MINIMUM=3.5',
            '-DCMAKE_C_FLAGS=' + fl, '-DCMAKE_CXX_FLAGS=' + fl + ' -include cstdint -include cstring',
            '-DCMAKE_PROJECT_Plexil_INCLUDE=/opt/vp/shim/top.cmake', '-DGIT_SUBMODULE=OFF', '-DMODULE_TESTS=OFF', '-DBUILD_SHARED_LIBS=OFF',
            '-DSTANDALONE_SIMULATOR=OFF', '-DIPC_ADAPTER=OFF', '-DUDP_ADAPTER=ON', '-DTEST_EXEC=OFF', '-DUNIVERSAL_EXEC=OFF',
            '-DVIEWER_LISTENER=ON', '-DPLAN_DEBUG_LISTENER=ON', '-DWITH_THREADS=ON'], B + '/cmake.%s.log' % v, env)
    sh(['ninja', '-C', d], B + '/ninja.%s.log' % v, env)
def harness(v, names):
    d = B + '/' + v; o = B + '/' + v + '-mc'; os.makedirs(o, exist_ok=True); s = B + '/tree/src'
    inc = ' '.join(['-I' + d, '-I' + d + '/src/utils'] + ['-I%s/%s' % (s, i) for i in INC] + ['-I' + HERE + '/common', '-I' + s + '/third-party/pugixml/src'])
    n = ['rule cxx\n  command = g++ -std=c++17 %s -w -DNDEBUG %s %s $fl -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc' % (OPT, SAN[v], inc),
         'rule link\n  command = g++ %s $objs -o $out -Wl,--start-group $libs -Wl,--end-group $xl -lpugixml -lpthread -ldl -lrt' % ('' if v == 'sched' else SAN[v]),
         'build %s/harness.o: cxx %s/common/harness.cc' % (o, HERE)]
    for t in TARGETS:
        if (t in ('schedmc', 'timemc', 'simmc')) != (v == 'sched'): continue
        src, ls, fl, xl = TARGETS[t]; objs = [o + '/harness.o']
        for x in src:
            ob = o + '/' + t + '.' + x.replace('/', '_').replace('@', '')[:-3] + '.o'; objs.append(ob)
            n.append('build %s: cxx %s\n  fl = %s' % (ob, s + '/' + x[1:] if x[0] == '@' else HERE + '/' + x, ('-include cstdint -include cstring ' if x[0] == '@' else '') + fl + (' -fno-sanitize=all -O2' if x == 'sched/rt.cc' else '')))
        lp = ' '.join('%s/src/%s' % (d, l) for l in ls)
        n.append('build %s/%s: link %s | %s\n  objs = %s\n  libs = %s\n  xl = %s' % (o, t, ' '.join(objs), lp, ' '.join(objs), lp, xl))
    f = o + '/build.ninja'; text = '\n'.join(['builddir = ' + o] + n) + '\n'
    if not os.path.exists(f) or open(f).read() != text: open(f, 'w').write(text)
    sh(['ninja', '-f', f] + [o + '/' + x for x in names], o + '/log.' + '_'.join(names)[:80])
def java():
    # the translator of simulation scripts, and the program that runs it many times in one virtual machine
    l = lock('java'); d = B + '/java'; src = REPO + '/compilers/plexilscript'; jar = REPO + '/jars/antlr.jar'
    files = sorted(os.path.join(r, f) for r, _, fs in os.walk(src) for f in fs if f.endswith(('.java', '.g'))) + [jar, HERE + '/java/Driver.java']
    h = hashlib.md5(); [h.update(f.encode() + b'\0' + open(f, 'rb').read()) for f in files]; stamp = h.hexdigest()
    if not (os.path.exists(d + '/stamp') and open(d + '/stamp').read() == stamp):
        shutil.rmtree(d, ignore_errors=True); [os.makedirs(d + x) for x in ('/plexilscript', '/driver', '/gen/plexilscript')]; shutil.copy(jar, d + '/antlr.jar')
        for g in [f for f in files if f.endswith('.g')]: sh(['java', '-cp', jar, 'antlr.Tool', '-o', d + '/gen/plexilscript', g], d + '/antlr.log')
        gen = [d + '/gen/plexilscript/' + f for f in os.listdir(d + '/gen/plexilscript') if f.endswith('.java')]
        sh(['javac', '-encoding', 'UTF-8', '-nowarn', '-cp', jar, '-d', d + '/plexilscript'] + [f for f in files if f.startswith(src) and f.endswith('.java')] + gen, d + '/javac.log')
        sh(['javac', '-nowarn', '-d', d + '/driver', HERE + '/java/Driver.java'], d + '/javac2.log')
        open(d + '/stamp', 'w').write(stamp)
    l.close()
def plc():
    # the compiler, without its last pass (which needs a library that is not in the repository)
    l = lock('plc'); d = B + '/plc'; src = REPO + '/compilers/plexil'; jar = REPO + '/jars/antlr-3.5.3-complete-no-st3.jar'; own = [HERE + '/java/Driver.java', HERE + '/java/stub/plexil/xml/SaxonTransformer.java']
    gs = [src + '/antlr/Plexil.g', src + '/antlr/PlexilTreeTransforms.g']; files = sorted(os.path.join(r, f) for r, _, fs in os.walk(src + '/java') for f in fs if f.endswith('.java') and f != 'SaxonTransformer.java')
    h = hashlib.md5(); [h.update(f.encode() + b'\0' + open(f, 'rb').read()) for f in files + gs + [jar] + own]; stamp = h.hexdigest()
    if not (os.path.exists(d + '/stamp') and open(d + '/stamp').read() == stamp):
        shutil.rmtree(d, ignore_errors=True); [os.makedirs(d + x) for x in ('/cls', '/driver', '/g', '/gen')]; shutil.copy(jar, d + '/antlr.jar'); [shutil.copy(g, d + '/g') for g in gs]
        sh(['java', '-cp', jar, 'org.antlr.Tool', '-fo', d + '/gen', d + '/g/Plexil.g', d + '/g/PlexilTreeTransforms.g'], d + '/antlr.log')
        sh(['javac', '-encoding', 'UTF-8', '-nowarn', '-cp', jar, '-d', d + '/cls'] + files + own[1:] + [d + '/gen/' + f for f in os.listdir(d + '/gen') if f.endswith('.java')], d + '/javac.log')
        sh(['javac', '-nowarn', '-d', d + '/driver', own[0]], d + '/javac2.log')
        open(d + '/stamp', 'w').write(stamp)
    l.close()
def build(v, names):
    if 'pstmc' in names: java()
    if 'plcmc' in names: plc()
    l = lock(v)
    l2 = lock('sync'); sync(); l2.close()
    libs(v)
    names = [x for x in names if x != 'libs']
    if names: harness(v, names)
    l.close()
if __name__ == '__main__': build(sys.argv[1], sys.argv[2:])
