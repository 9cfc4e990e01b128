"""Build the IR dump of /repo's current working tree (plus the instantiation
drivers in /verif/drivers). Only compilers run; the analysed code never does."""
import hashlib
import os
import re
import subprocess
import sys
import shutil
import tempfile
from concurrent.futures import ThreadPoolExecutor

ENGINE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(ENGINE)
REPO = os.environ.get('PFA_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
CACHE = os.environ.get('PFA_CACHE', os.path.join(VERIF, '.cache'))

CXX = 'clang++'
LLVM = '/usr/lib/llvm-18'

FLAGS = ['-std=c++11', '-O0', '-Xclang', '-disable-O0-optnone', '-g', '-fstandalone-debug',
         '-D_REENTRANT', '-D_FILE_OFFSET_BITS=64', '-Wno-everything', '-fno-access-control',
         '-ffp-contract=off']

CONFIG_H = '''#define HAVE_FCGIAPP_H 1
#define HAVE_STDINT_H 1
#define HAVE_MYSQL 1
#define HAVE_MYSQL_H 1
#define HAVE_POSTGRES_H 1
#define PFICOMMON_VERSION "4.0.0"
'''

# functions that are looked through although they live outside the repository
STD_INLINE = [
    r'^std::__shared_ptr_access<.*>::(operator->|operator\*|_M_get)\(\)',
    r'^std::__shared_ptr<.*>::(operator bool|get)\(\)',
    r'^std::unique_ptr<.*>::(operator->|operator\*|get|operator bool)\(\)',
    r'^(.* )?std::(forward|move|__addressof|addressof)<',
    r'^(unsigned |signed |long |int |char |double |float |bool |short )+(const& )?std::(max|min)<',
    r'^void std::swap<(char|signed char|unsigned char|short|unsigned short|int|unsigned int|long|unsigned long|[\w: ]+\*)>\(',
    r'^std::(enable_if|__enable_if).* std::swap<(char|signed char|unsigned char|short|unsigned short|int|unsigned int|long|unsigned long|[\w: ]+\*)>\(',
    r'^std::(__cxx11::)?basic_string<char, std::char_traits<char>, std::allocator<char> ?>::operator\[\]',
]

CONFIGS = {
    # concurrency primitives stay visible as calls
    'hi': dict(keep=[
        r'^pfi::concurrent::(mutex_base::(lock|unlock)|condition::(wait|notify|notify_all)\(|scoped_lock::(scoped_lock|~scoped_lock|locked|bool_test))',
        r'^pfi::concurrent::rw_mutex::(read_lock|write_lock|unlock)',
        r'^pfi::concurrent::scoped_rwlock<.*>::(~?scoped_rwlock|locked|bool_test)',
        r'^pfi::concurrent::(mutex_base::~?mutex_base|condition::~?condition\(|mutex::~?mutex|r_mutex::~?r_mutex|rw_mutex::~?rw_mutex)',
        r'^pfi::concurrent::thread::(id|sleep|yield|start|join|detach|~?thread)\(',
        r'^pfi::lang::safe_bool<pfi::concurrent::scoped_(rw)?lock',
        r'^pfi::system::time::(get_clock_time|clock_time::operator double)',
    ]),
    # everything in the library is looked through
    'lo': dict(keep=[]),
    # classes owning system handles are opaque to everybody else
    'own': dict(keep=[r'^pfi::concurrent::'], keepx=[
        'pfi::network::stream_socket::', 'pfi::network::server_socket::', 'pfi::system::mmapper::mmapper::', 'pfi::data::code::decoder::',
        'pfi::text::json::json_parser::', 'pfi::database::mysql::mysql_statement::', 'pfi::database::mysql::mysql_connection_impl::',
        'pfi::database::postgresql::postgresql_connection_impl::', 'pfi::database::postgresql::postgresql_result::',
        'pfi::database::postgresql::postgresql_statement::']),
    # remote procedure calls: archives' scalar and string transfers, sockets and streams stay visible
    'rpc': dict(src=r'^network/rpc/', drivers=['rpc'], keep=[
        r'pfi::data::serialization::serialize<pfi::data::serialization::binary_[io]archive, char',
        r'^pfi::data::serialization::serialize\(pfi::data::serialization::binary_[io]archive&, (int|unsigned int|bool)',
        r'^pfi::network::(stream_socket|server_socket|socketstream|basic_socketstream|rpc::rpc_client)',
        r'^pfi::concurrent::', r'gen_exception', r'lexical_cast<', r'^pfi::network::rpc::(version_mismatch::version_mismatch|method_not_found::method_not_found)',
        r'^pfi::network::rpc::rpc_server::(is_running|notify)']),
    # the whole library including its headers; locks stay visible
    'all': dict(keep='hi', drivers=['concurrent', 'own', 'lib']),
    # serialization with opaque element types
    'ser': dict(src=r'^system/endian', drivers=['ser'], keep=[r'pfi::system::endian::(to|from)_(little|big)',
                                                              r'^(void )?pfi::data::serialization::serialize\(pfi::data::serialization::binary_[io]archive&, (bool|char|signed char|unsigned char|short|unsigned short|int|unsigned int|long|unsigned long|long long|unsigned long long|float|double|long double)']),
    # text and codecs: character-level helpers stay visible to their users
    'text': dict(src=r'^(text/|data/string/|data/encoding|network/uri|system/endian)', drivers=['text'], keep=[
        r'html_encode', r'json_parser::(peek|incr|match|parse_hex|parse_string_prim|parse_impl|parse_object|parse_array|parse_number|parse_string|parse_true|parse_false|parse_null|error|ss|speek|smatch)\(', r'^pfi::text::json::json_string::print', r'::chars_to_uchar<', r'::uchar_to_chars<']),
    # numeric value types
    'math': dict(src=r'^(math/|system/time_util|network/ipv4)', drivers=['math'], lib=[r'^__cxx_global_var_init', r'\bdriver_math::\w+\('], keep=[r'pfi::math::ratio::ratio<.*>::gcd\(', r'mersenne_twister::']),
    # values of dynamic type
    # the stream buffer over a socket; the socket itself stays visible
    'sstream': dict(src=r'^(network/socket\.cpp)', drivers=['sstream'], lib=[r'\bdriver_sstream::\w+\('], keep=[r'^pfi::network::stream_socket::', r'^pfi::network::server_socket::']),
    'digest': dict(src=r'^(data/digest/)', drivers=['digest'], lib=[r'\bdriver_digest::\w+\('], keep=[r'md5sum::calc\(', r'^pfi::concurrent::']),
    'csv': dict(src=r'^(text/csv)', drivers=['csv'], lib=[r'\bdriver_csv::\w+\('], keep=[]),
    'typed': dict(src=r'^(database/type)', drivers=['typed'], lib=[r'\bdriver_typed::\w+(\[abi:\w+\])?\('], keep=[r'json_object::merge', r'calendar_time::calendar_time\(', r'throw_json_bad_cast<', r'pfi::data::unordered_map<.*>::']),
    # containers
    'data': dict(src=r'^(network/dns)', drivers=['data'], lib=[r'\bdriver_data::\w+\('], inline=[r'\bstd::make_pair<', r'^std::pair<.*>::pair\b', r'^(const )?.*std::pair<.*>::operator=\('], keep=[r'^pfi::concurrent::', r'normal_dns_resolver::', r'pfi::data::unordered_map<.*>::']),
    # sockets: the layers of buffered input and output stay visible to each other
    'sock': dict(src=r'^network/socket', drivers=[], keep=[r'^pfi::network::stream_socket::(recv|send|close|open|bind_socket|connect|shutdown|getc|write)\(', r'^pfi::concurrent::', r'ipv4_address::(ipv4_address|to_string)\(', r'dns_resolver::']),
    # HTTP messages and bodies
    'http': dict(src=r'^network/http/', drivers=[], keep=[r'^pfi::network::stream_socket::', r'^pfi::network::uri::', r'lexical_cast<', r'^pfi::concurrent::', r'http::header::', r'cicmp\(', r'basic_http\w*_stream<char.*>::basic_http\w*_stream\(', r'basic_socketstream<.*>::basic_socketstream\(']),
    # database layer with opaque value types
    'db': dict(src=r'^database/', drivers=['db'], keep=[r'^pfi::database::mysql::mysql_connection::query', r'lexical_cast<']),
}


for _c in CONFIGS.values():
    if isinstance(_c['keep'], str):
        _c['keep'] = CONFIGS[_c['keep']]['keep']


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, universal_newlines=True, **kw)


def tool():
    """compile engine/irdump.cpp when needed"""
    src = os.path.join(ENGINE, 'irdump.cpp')
    h = hashlib.sha1(open(src, 'rb').read()).hexdigest()[:16]
    out = os.path.join(CACHE, 'irdump-' + h)
    if not os.path.exists(out):
        os.makedirs(CACHE, exist_ok=True)
        tmp = out + '.tmp%d' % os.getpid()
        r = sh(['g++', '-O1', '-std=c++17', '-I' + LLVM + '/include', '-D_GNU_SOURCE', '-D__STDC_CONSTANT_MACROS',
                '-D__STDC_FORMAT_MACROS', '-D__STDC_LIMIT_MACROS', '-w', src, '-o', tmp, '-L' + LLVM + '/lib', '-lLLVM-18'])
        if r.returncode:
            raise SystemExit('cannot build irdump:\n' + r.stderr[-3000:])
        os.rename(tmp, out)
    return out


class DriverFailed(Exception):
    """a driver that uses only the public interface no longer compiles although the library does"""


def sources(rx=None):
    out = []
    for d, _, fs in os.walk(SRC):
        if '/mprpc' in d[len(SRC):]:
            continue           # needs msgpack, which is not installed (not built by the project here either)
        for f in sorted(fs):
            if f.endswith('.cpp') and not f.endswith('_test.cpp'):
                out.append(os.path.join(d, f))
    return sorted(p for p in out if rx is None or re.search(rx, p[len(SRC) + 1:]))


def drivers(names=('concurrent', 'own')):
    return [os.path.join(VERIF, 'drivers', n + '.cpp') for n in names]


def tree_hash(extra=''):
    h = hashlib.sha1()
    for root in (SRC, os.path.join(VERIF, 'drivers')):
        for d, ds, fs in sorted(os.walk(root)):
            for f in sorted(fs):
                if f.endswith(('.cpp', '.h', '.c', '.hpp', '.cc')):
                    p = os.path.join(d, f)
                    h.update(p.encode())
                    h.update(open(p, 'rb').read())
    h.update(repr((FLAGS, STD_INLINE, CONFIG_H, extra)).encode())
    h.update(open(os.path.join(ENGINE, 'irdump.cpp'), 'rb').read())
    return h.hexdigest()[:20]


def incflags(work):
    g = os.path.join(work, 'gen', 'x', 'y')
    os.makedirs(g, exist_ok=True)
    with open(os.path.join(work, 'gen', 'pfi-config.h'), 'w') as f:
        f.write(CONFIG_H)
    with open(os.path.join(work, 'gen', 'x', 'pfi-config.h'), 'w') as f:
        f.write(CONFIG_H)
    return ['-I' + g, '-I/usr/include/postgresql', '-I/usr/include/mariadb', '-I/usr/include/mariadb/mysql', '-I' + SRC]


def compile_all(work, files):
    inc = incflags(work)

    def one(p):
        o = os.path.join(work, p.replace('/', '_') + '.bc')
        r = sh([CXX] + FLAGS + inc + ['-emit-llvm', '-c', p, '-o', o])
        return p, o, r
    outs = []
    errs = []
    with ThreadPoolExecutor(8) as ex:
        for p, o, r in ex.map(one, files):
            if r.returncode:
                errs.append((p, r.stderr[-1500:]))
            else:
                outs.append(o)
    return outs, errs


def dump(config='hi'):
    """path of the IR dump of the current tree under the given configuration"""
    cfg = CONFIGS[config]
    key = tree_hash(repr((config, cfg)))
    out = os.path.join(CACHE, 'dump-%s-%s.jsonl' % (config, key))
    if os.path.exists(out):
        return out
    os.makedirs(CACHE, exist_ok=True)
    t = tool()
    work = tempfile.mkdtemp(prefix='pfa-')
    try:
        drv = drivers(cfg.get('drivers', ('concurrent', 'own')))
        bcs, errs = compile_all(work, sources(cfg.get('src')) + drv)
        if errs and all(e[0] in drv for e in errs):
            raise DriverFailed('\n'.join('%s\n%s' % e for e in errs))
        if errs:
            raise SystemExit('cannot compile the tree:\n' + '\n'.join('%s\n%s' % e for e in errs))
        c = os.path.join(work, 'config')
        with open(c, 'w') as f:
            f.write('repo %s/\nmax 9000\n' % SRC)
            for r in STD_INLINE + cfg.get('inline', []):
                f.write('inline %s\n' % r)
            for r in cfg['keep']:
                f.write('keep %s\n' % r)
            for r in cfg.get('lib', []):
                f.write('lib %s\n' % r)
            for r in cfg.get('keepx', []):
                f.write('keepx %s\n' % r)
        tmp = out + '.tmp%d' % os.getpid()
        r = sh([t, tmp, c] + bcs)
        if r.returncode:
            raise SystemExit('irdump failed:\n' + r.stderr[-3000:])
        # bound the cache
        olds = sorted((os.path.getmtime(os.path.join(CACHE, x)), x) for x in os.listdir(CACHE) if x.startswith('dump-') and x.endswith('.jsonl'))
        for _, x in olds[:-30]:
            try:
                os.remove(os.path.join(CACHE, x))
            except OSError:
                pass
        os.rename(tmp, out)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return out


if __name__ == '__main__':
    for c in sys.argv[1:] or ['hi', 'lo']:
        print(dump(c))
