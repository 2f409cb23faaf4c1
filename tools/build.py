"""Builds a harness from /repo's current working tree, without touching /repo.

Only the include closure of the harness is compiled: every header of the
repository that is reached pulls in the source file next to it, and every
X.pb.h the file generated from X.proto.  If linking leaves undefined symbols,
all library sources are added.  Objects are reused only when the command line
and the content of every file they were compiled from are unchanged.
"""
import hashlib, json, os, re, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, 'build'))
JOBS = int(os.environ.get('VERIF_JOBS', '8'))

INCLUDE = re.compile(r'^\s*#\s*include\s*[<"](cartographer/[^">]+)[">]', re.M)
LOCAL = re.compile(r'^#include "([a-z0-9_]+\.h)"', re.M)
IMPORT = re.compile(r'^\s*import\s+(?:public\s+)?"(cartographer/[^"]+\.proto)"', re.M)

LIBS = ['-lceres', '-lglog', '-lgflags', '-llua5.2', '-lboost_iostreams', '-lcairo', '-lprotobuf',
        '-labsl_cord', '-labsl_cordz_info', '-labsl_cord_internal', '-labsl_cordz_functions',
        '-labsl_cordz_handle', '-labsl_hash', '-labsl_city', '-labsl_bad_variant_access',
        '-labsl_low_level_hash', '-labsl_raw_hash_set', '-labsl_bad_optional_access',
        '-labsl_hashtablez_sampler', '-labsl_exponential_biased', '-labsl_str_format_internal',
        '-labsl_synchronization', '-labsl_stacktrace', '-labsl_graphcycles_internal',
        '-labsl_symbolize', '-labsl_malloc_internal', '-labsl_debugging_internal',
        '-labsl_demangle_internal', '-labsl_time', '-labsl_strings', '-labsl_strings_internal',
        '-labsl_base', '-labsl_spinlock_wait', '-labsl_throw_delegate',
        '-labsl_raw_logging_internal', '-labsl_log_severity', '-labsl_int128', '-labsl_civil_time',
        '-labsl_time_zone', '-lpthread', '-lz', '-lm']


def libs():
    out = []
    for l in LIBS:
        name = 'lib' + l[2:] + '.so'
        if l.startswith('-labsl') and not os.path.exists('/usr/lib/x86_64-linux-gnu/' + name):
            continue
        out.append(l)
    return out


class Builder:
    def __init__(self, name, harness, flags=(), extra_sources=(), compiler='g++', opt='-O1',
                 link=(), tag='', hints=None):
        self.name = name
        self.harness = harness
        self.compiler = compiler
        self.dir = os.path.join(BUILD, name + tag)
        self.gen = os.path.join(BUILD, 'gen')
        os.makedirs(self.dir, exist_ok=True)
        os.makedirs(self.gen, exist_ok=True)
        self.extra = list(extra_sources)
        self.link = list(link)
        self.hints = hints
        self.shim = os.path.join(VERIF, 'engine', 'ceres_shim.h')
        self.flags = [opt, '-DNDEBUG', '-w', '-pthread', '-std=gnu++17',
                      '-DBOOST_IOSTREAMS_DYN_LINK', '-DBOOST_IOSTREAMS_NO_LIB',
                      '-DGFLAGS_IS_A_DLL=0', '-DGLOG_CUSTOM_PREFIX_SUPPORT', '-DUSE_PROMETHEUS=1',
                      '-I' + os.path.join(VERIF, 'engine'), '-I' + os.path.join(VERIF, 'harness'),
                      '-I' + self.gen, '-I' + REPO,
                      '-isystem', '/usr/include/eigen3', '-isystem', '/usr/include/lua5.2']
        self.flags += list(flags)
        self.trace = False
        self.hashes = {}
        self.lock = threading.Lock()

    # -- helpers ---------------------------------------------------------
    def file_hash(self, path):
        with self.lock:
            if path in self.hashes:
                return self.hashes[path]
        try:
            with open(path, 'rb') as f:
                h = hashlib.sha1(f.read()).hexdigest()
        except OSError:
            h = 'missing'
        with self.lock:
            self.hashes[path] = h
        return h

    @staticmethod
    def text(path):
        with open(path, errors='replace') as f:
            return f.read()

    def short(self, p):
        for base, name in ((self.gen, 'gen'), (REPO, 'repo'), (VERIF, 'verif')):
            if p.startswith(base + '/'):
                return name + p[len(base):]
        return p

    def closure(self, all_library=False):
        sources, protos = [], []
        seen = set()
        queue = [self.harness] + self.extra
        for s in queue:
            sources.append(s)

        def add_header(inc):
            if inc in seen:
                return
            seen.add(inc)
            if inc.endswith('.pb.h'):
                add_proto(inc[:-5] + '.proto')
                return
            path = os.path.join(REPO, inc)
            if not os.path.exists(path):
                return
            queue.append(path)
            if inc.endswith('.h'):
                cc = path[:-2] + '.cc'
                if os.path.exists(cc) and cc not in sources:
                    sources.append(cc)
                    queue.append(cc)

        def add_proto(p):
            if p in seen:
                return
            seen.add(p)
            path = os.path.join(REPO, p)
            if not os.path.exists(path):
                return
            protos.append(p)
            for q in IMPORT.findall(self.text(path)):
                add_proto(q)

        if all_library:
            for root, _, files in os.walk(os.path.join(REPO, 'cartographer')):
                if '/cloud' in root:
                    continue
                for f in sorted(files):
                    if f.endswith('.cc') and not re.search(r'(_test|_main|_test_helpers|fake_.*)\.cc$', f) \
                            and '/testing' not in root and '/test' not in os.path.basename(root):
                        p = os.path.join(root, f)
                        if p not in sources:
                            sources.append(p)
                            queue.append(p)
        while queue:
            path = queue.pop()
            for inc in INCLUDE.findall(self.text(path)):
                add_header(inc)
            if path.startswith(VERIF + '/'):
                for inc in LOCAL.findall(self.text(path)):
                    own = os.path.join(VERIF, 'harness', inc)
                    if os.path.exists(own) and own not in seen:
                        seen.add(own)
                        queue.append(own)
        return sources, protos

    def uses_ceres(self, source):
        """Does this translation unit see Ceres headers?"""
        seen, queue = set(), [source]
        while queue:
            path = queue.pop()
            if path in seen or not os.path.exists(path):
                continue
            seen.add(path)
            t = self.text(path)
            if '"ceres/' in t or '<ceres/' in t:
                return True
            for inc in INCLUDE.findall(t):
                queue.append(os.path.join(REPO, inc))
        return False

    def write_config(self):
        src = os.path.join(REPO, 'cartographer/common/config.h.cmake')
        if not os.path.exists(src):
            return
        t = self.text(src).replace('@CARTOGRAPHER_CONFIGURATION_FILES_DIRECTORY@', REPO + '/configuration_files')
        t = t.replace('@PROJECT_SOURCE_DIR@', REPO)
        dst = os.path.join(self.gen, 'cartographer/common/config.h')
        os.makedirs(os.path.dirname(dst), exist_ok=True)
        if not os.path.exists(dst) or self.text(dst) != t:
            with open(dst, 'w') as f:
                f.write(t)

    def run_protoc(self, protos):
        self.write_config()
        missing = []
        for p in protos:
            key = self.file_hash(os.path.join(REPO, p))
            stamp = os.path.join(self.gen, p + '.stamp')
            out = os.path.join(self.gen, p[:-6] + '.pb.cc')
            if os.path.exists(stamp) and os.path.exists(out) and self.text(stamp) == key:
                continue
            missing.append((p, stamp, key))
        if missing:
            r = subprocess.run(['protoc', '--cpp_out=' + self.gen, '-I', REPO] +
                               [os.path.join(REPO, p) for p, _, _ in missing],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                raise RuntimeError('protoc failed:\n' + r.stdout)
            for _, stamp, key in missing:
                with open(stamp, 'w') as f:
                    f.write(key)

    def compile_one(self, source):
        flags = list(self.flags)
        generated = source.startswith(self.gen)
        if generated:
            # Generated code: no sanitizer, no shim; shared between harnesses.
            flags = [f for f in flags if not f.startswith('-fsanitize')]
        elif self.uses_ceres(source):
            flags = flags + ['-include', self.shim]
        oname = source.strip('/').replace('/', '_') + '.o'
        objdir = self.dir
        obj = os.path.join(objdir, oname)
        man = obj + '.json'
        cmd = [self.compiler] + flags + ['-MMD', '-MF', obj + '.d', '-c', source, '-o', obj]
        cmdkey = hashlib.sha1(' '.join(cmd).encode()).hexdigest()
        if os.path.exists(man) and os.path.exists(obj):
            try:
                m = json.loads(self.text(man))
                if m['cmd'] == cmdkey and all(self.file_hash(p) == h for p, h in m['deps'].items()):
                    return obj, None
            except Exception:
                pass
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            if os.path.exists(man):
                os.unlink(man)
            return obj, 'compiling %s failed:\n%s' % (source, r.stdout[-6000:])
        deps = self.text(obj + '.d').replace('\\\n', ' ').split(':', 1)[1].split()
        with open(man, 'w') as f:
            json.dump({'cmd': cmdkey, 'deps': {p: self.file_hash(p) for p in deps}}, f)
        return obj, None

    def build(self):
        t0 = time.time()
        binary = os.path.join(self.dir, self.name)
        for attempt in range(3):
            # First the files the harness is known to need, then its whole
            # include closure, then the whole library.
            all_library = attempt == 2
            sources, protos = self.closure(all_library)
            self.run_protoc(protos)
            everything = sources + [os.path.join(self.gen, p[:-6] + '.pb.cc') for p in protos]
            if attempt == 0:
                if not self.hints:
                    continue
                wanted = set(self.hints)
                everything = [p for p in everything
                              if p == self.harness or p in self.extra or self.short(p) in wanted]
            # Big files first.
            everything.sort(key=lambda p: (p != self.harness, 'pose_graph' not in p, -os.path.getsize(p)))
            with ThreadPoolExecutor(JOBS) as pool:
                results = list(pool.map(self.compile_one, everything))
            errors = [e for _, e in results if e]
            if errors:
                raise RuntimeError('\n'.join(errors[:2]))
            own = [o for o, p in zip((o for o, _ in results), everything)
                   if p == self.harness or p in self.extra]
            archive = os.path.join(self.dir, 'lib.a')
            if os.path.exists(archive):
                os.unlink(archive)
            rest = [o for o, _ in results if o not in own]
            if rest:
                subprocess.check_call(['ar', 'qcs', archive] + rest)
            cmd = [self.compiler] + [f for f in self.flags if f.startswith('-fsanitize')] + \
                ['-o', binary + '.tmp'] + own + ([archive] if rest else []) + self.link + libs()
            if self.trace:
                cmd.append('-Wl,-t,-t')
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode == 0 and self.trace:
                names = {os.path.basename(o): self.short(p) for (o, _), p in zip(results, everything)}
                used = set()
                for m in re.findall(r'lib\.a[^\n]*?\(?([\w.\-]+\.o)\)?', r.stdout):
                    if m in names:
                        used.add(names[m])
                self.used = sorted(used)
            if r.returncode == 0:
                os.replace(binary + '.tmp', binary)
                print('built %s: %d files in %.1f s' % (self.name, len(everything), time.time() - t0))
                return binary
            if attempt == 2:
                raise RuntimeError('link failed:\n' + r.stdout[-4000:])
            print('link incomplete, adding more sources:', r.stdout[-600:])
