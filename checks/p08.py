"""Owners cannot be duplicated: compile-time witnesses against the real headers."""
import os
import re
import shutil
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor
import build
from pfa import AnchorLost

RULE = '''For every class that owns a lock, thread, descriptor, mapping, raw buffer or database handle, a translation unit asserting that the
class is neither copy-constructible nor copy-assignable (from const or non-const lvalues) compiles against the current headers. A violating
program, one that duplicates an owner, therefore does not compile.'''
ASSUME = ['clang\'s type traits model overload resolution and access as the standard requires']

OWNERS = [
    ('concurrent/mutex.h', ['pfi::concurrent::mutex', 'pfi::concurrent::r_mutex']),
    ('concurrent/rwmutex.h', ['pfi::concurrent::rw_mutex', 'pfi::concurrent::scoped_rlock', 'pfi::concurrent::scoped_wlock']),
    ('concurrent/condition.h', ['pfi::concurrent::condition']),
    ('concurrent/lock.h', ['pfi::concurrent::scoped_lock']),
    ('concurrent/thread.h', ['pfi::concurrent::thread']),
    ('concurrent/pcbuf.h', ['pfi::concurrent::pcbuf<int>']),
    ('concurrent/mvar.h', ['pfi::concurrent::mvar<int>']),
    ('concurrent/chan.h', ['pfi::concurrent::chan<int>']),
    ('concurrent/qsem.h', ['pfi::concurrent::qsem']),
    ('network/socket.h', ['pfi::network::stream_socket', 'pfi::network::server_socket']),
    ('network/iostream.h', ['pfi::network::socketstream']),
    ('network/dns.h', ['pfi::network::cached_dns_resolver']),
    ('network/rpc/base.h', ['pfi::network::rpc::rpc_server']),
    ('network/http/stream.h', ['pfi::network::http::httpstream']),
    ('system/mmapper.h', ['pfi::system::mmapper::mmapper']),
    ('lang/scoped_ptr.h', ['pfi::lang::scoped_ptr<int>']),
    ('text/json.h', ['pfi::text::json::json_parser']),
    ('data/code/code.h', ['pfi::data::code::decoder']),
    ('data/sparse_matrix/sparse_matrix.h', ['pfi::data::sparse_matrix::sparse_matrix_reader', 'pfi::data::sparse_matrix::sparse_matrix_writer']),
    ('data/serialization.h', ['pfi::data::serialization::binary_iarchive', 'pfi::data::serialization::binary_oarchive']),
    ('database/mysql/connection_def.h', ['pfi::database::mysql::mysql_connection_impl', 'pfi::database::mysql::mysql_statement']),
    ('database/postgresql/connection_def.h', ['pfi::database::postgresql::postgresql_connection_impl']),
    ('database/postgresql/result.h', ['pfi::database::postgresql::postgresql_result']),
]

# copying these hands the lock over (P05), so only assignment would duplicate it
MOVED = ('pfi::concurrent::scoped_rlock', 'pfi::concurrent::scoped_wlock')
TRANSFER = (('assigned from another one', 'is_assignable<T&,const T&>'), ('assigned from another one', 'is_assignable<T&,T&>'))


def check(ctx):
    work = tempfile.mkdtemp(prefix='pfa-')
    try:
        inc = build.incflags(work)
        flags = [x for x in build.FLAGS if x not in ('-g', '-fno-access-control')]

        def one(k):
            h, classes = OWNERS[k]
            p = os.path.join(work, 'w%d.cpp' % k)
            pre = '#include <type_traits>\n#include "%s"\n' % h
            with open(p, 'w') as f:
                f.write(pre + '\n'.join('typedef %s owner%d;' % (c, n) for n, c in enumerate(classes)))
            r0 = build.sh([build.CXX] + flags + inc + ['-fsyntax-only', p])
            if r0.returncode:
                return k, None, r0.stderr
            bad = []
            for n, c in enumerate(classes):
                for what, tr in TRANSFER if c in MOVED else (('copied', 'is_constructible<T,const T&>'), ('copied', 'is_constructible<T,T&>'), ('assigned from another one', 'is_assignable<T&,const T&>'), ('assigned from another one', 'is_assignable<T&,T&>')):
                    with open(p, 'w') as f:
                        f.write(pre + 'typedef %s T;\nstatic_assert(!std::%s::value, "PFA-WITNESS");\n' % (c, tr))
                    r = build.sh([build.CXX] + flags + inc + ['-fsyntax-only', p])
                    if r.returncode and 'PFA-WITNESS' in r.stderr:
                        bad.append((c, what))
                    elif r.returncode:
                        return k, None, r.stderr
            return k, bad, ''
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(one, range(len(OWNERS))))
    finally:
        shutil.rmtree(work, ignore_errors=True)
    n = 0
    for k, bad, err in res:
        h, classes = OWNERS[k]
        if bad is None:
            ctx.count('not_expressible')
            ctx.notes.append('%s: witness does not compile: %s' % (h, err[-200:]))
            continue
        for c in classes:
            ctx.ob('cannot be copied or assigned', c, n=4)
            n += 1
        for c, what in sorted(set(bad)):
            ctx.bad('copyable-owner', c, where(h, c), 'an object that owns a handle, lock or buffer can be %s, so both release it' % what)
    ctx.need('owner_classes', n, len(OWNERS) // 2)


def where(h, c):
    name = re.sub('<.*', '', c).split('::')[-1]
    p = os.path.join(build.SRC, h)
    for k, l in enumerate(open(p, errors='replace'), 1):
        if re.search(r'\bclass\s+%s\b' % name, l):
            return '%s:%d' % (h, k)
    return h
