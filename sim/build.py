import sys, os, hashlib, subprocess, concurrent.futures as cf, glob
repo, sim, B = sys.argv[1:4]
san = ['-fsanitize=address', '-fsanitize-address-use-after-scope', '-fno-omit-frame-pointer']
inc = ['-I%s/src' % repo, '-I%s/src/Engine' % repo, '-I%s/src/Engine/Mandarin' % repo, '-I%s/src/Engine/gramambular2' % repo, '-I%s/src/ChineseNumbers' % repo,
       '-I/usr/include/Fcitx5/Module/fcitx-module/notifications', '-I/usr/include/Fcitx5/Module', '-I/usr/include/Fcitx5/Core',
       '-I/usr/include/Fcitx5/Config', '-I/usr/include/Fcitx5/Utils', '-I/usr/include/json-c', '-I' + sim]
base = ['-std=c++17', '-O1', '-g1', '-w', '-D_GLIBCXX_ASSERTIONS', '-DFCITX_GETTEXT_DOMAIN="fcitx5-mcbopomofo"', '-DFMT_SHARED',
        '-DSIM_DATA_DIR="%s/data"' % sim] + san
def product_sources():
    out = []
    for d, dirs, fs in os.walk(os.path.join(repo, 'src')):
        for f in sorted(fs):
            if f.endswith('.cpp') and not f.endswith(('Test.cpp', 'test.cpp', 'Benchmark.cpp', '_bench.cpp')) and '_test' not in f and '_main' not in f:
                out.append(os.path.join(d, f))
    return sorted(out)
def headers(root):
    h = hashlib.sha256()
    for d, dirs, fs in sorted(os.walk(root)):
        for f in sorted(fs):
            if f.endswith(('.h', '.hpp', '.inc')):
                p = os.path.join(d, f); h.update(p.encode()); h.update(open(p, 'rb').read())
    return h.hexdigest()
ph = headers(os.path.join(repo, 'src')); sh = headers(sim)
def key(src, own):
    h = hashlib.sha256()
    for s in (repr(base + inc), ph, sh if own else '', src): h.update(s.encode())
    h.update(open(src, 'rb').read())
    return h.hexdigest()[:24]
jobs = []
for s in product_sources(): jobs.append((s, False))
for s in sorted(glob.glob(sim + '/*.cpp')): jobs.append((s, True))
objs = []
def comp(j):
    src, own = j
    o = '%s/obj/%s-%s.o' % (B, os.path.basename(src)[:-4], key(src, own))
    if not os.path.exists(o):
        flags = base + (['-Wall', '-U_GLIBCXX_ASSERTIONS', '-D_GLIBCXX_ASSERTIONS'] if own else [])
        r = subprocess.run(['g++'] + flags + inc + ['-c', src, '-o', o + '.tmp'], capture_output=True, text=True)
        if r.returncode: return (src, r.stderr)
        os.rename(o + '.tmp', o)
    else: os.utime(o)
    objs.append(o); return None
big = {'McBopomofo.cpp': 0, 'KeyHandler.cpp': 1, 'world.cpp': 1, 'host.cpp': 0, 'gen.cpp': 2, 'main.cpp': 2}
jobs.sort(key=lambda j: big.get(os.path.basename(j[0]), 5))
with cf.ThreadPoolExecutor(8) as ex: res = [r for r in ex.map(comp, jobs) if r]
if res:
    for s, e in res: sys.stderr.write('FAILED %s\n%s\n' % (s, e[:4000]))
    sys.exit(2)
objs.sort()
tag = hashlib.sha256(repr(objs).encode()).hexdigest()[:24]
exe = B + '/dsim'
if not (os.path.exists(exe) and os.path.exists(exe + '.tag') and open(exe + '.tag').read() == tag):
    r = subprocess.run(['g++'] + san + ['-rdynamic', '-o', exe + '.tmp'] + objs + ['-lFcitx5Core', '-lFcitx5Config', '-lFcitx5Utils', '-lfmt', '-ljson-c', '-licui18n', '-licuuc', '-ldl', '-lpthread'], capture_output=True, text=True)
    if r.returncode: sys.stderr.write(r.stderr[:4000]); sys.exit(2)
    os.rename(exe + '.tmp', exe); open(exe + '.tag', 'w').write(tag)
# forget stale objects
keep = set(objs)
old = sorted(glob.glob(B + '/obj/*.o'), key=os.path.getmtime, reverse=True)
for o in old[400:]:
    if o not in keep: os.unlink(o)
