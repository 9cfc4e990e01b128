"""Hand-over discipline of the bounded buffer, the one-place variable, the
channel and the counting semaphore: every transfer happens exactly once, only
when there is room / something to take, and in order."""
from pfa import *
from conc import *
import xfer

RULE = '''On every path of every public operation of the blocking containers: an insertion into a bounded store is dominated,
since the lock was taken or re-acquired by a wait and with no change in between, by a branch establishing room; a removal (and
any element access) by one establishing an element; a removed element was copied out first from the end it is removed at; a
semaphore takes/returns exactly the amount it tested/was given; a successful operation mutates exactly once and a failed or
observing one not at all; insertion and removal ends of a queue are opposite; a channel writer stores to every attached reader
and readers attach/detach under the link's lock.'''

# public operations and the mutations a successful call makes, in order
OPS = {
    'pcbuf::push': ['grow'], 'pcbuf::pop': ['shrink'], 'pcbuf::clear': ['clear'], 'pcbuf::size': [], 'pcbuf::empty': [],
    'mvar::take': ['shrink'], 'mvar::put': ['grow'], 'mvar::read': [], 'mvar::try_take': ['shrink'], 'mvar::try_put': ['grow'],
    'mvar::swap': ['shrink', 'grow'], 'mvar::empty': [],
    'chan::read': ['shrink'], 'chan::unget': ['grow'], 'chan::size': [], 'chan::empty': [],
    'qsem::wait': ['shrink'], 'qsem::signal': ['grow'], 'qsem::lock': ['shrink'], 'qsem::unlock': ['grow'],
}


def check(ctx):
    model = ctx.model()
    seen = set()
    ends = {}
    for cls, base, f in xfer.units(model):
        if xfer.is_ctor_dtor(f):
            continue
        op = '::'.join(f.short.split('::')[-2:])
        if op not in OPS:
            if op == 'chan::write':
                check_write(ctx, model, f)
            continue

        def report(rule, i, msg):
            ctx.bad(rule, f, i.where(), msg)
        x = xfer.X(model, f, cls, xfer.bounded_kind(model, cls), report).run()
        seen.add(op)
        ctx.count('operations')
        ctx.count('states', x.nstates)
        for mid, (kind, end) in x.mutsites.items():
            ctx.ob('%s %s guarded by its condition' % (kind, end), '%s (%s)' % (f.defs[mid].where(), f.short))
            if not end.startswith(('c:', '%', 'a')) or end == 'back':
                ends.setdefault((base, kind, op), set()).add(end)
        isbool = f.d['ret'] == 'i1'
        ok_exit = 0
        for i, muts, v in x.exits:
            if i.op != 'ret':
                # exceptional exit: nothing may have been removed or inserted twice
                continue
            ks = [m[0] for m in muts if m[0] != 'rel']
            want = OPS[op]
            if isbool and v == 0 and want:
                if ks:
                    ctx.bad('failure-with-effect', f, i.where(), 'reports failure on a path that performed %s' % ks)
                continue
            if ks != want:
                ctx.bad('effects', f, i.where(), 'a successful return performed %s instead of %s' % (ks or 'nothing', want or 'nothing'))
            else:
                ok_exit += 1
            if len(want) > 1:
                seq = [m[0] for m in muts]
                k = seq.index('shrink') if 'shrink' in seq else 0
                if 'rel' in seq[k + 1:seq.index('grow') if 'grow' in seq else len(seq)]:
                    ctx.bad('not-atomic', f, i.where(), 'releases the lock between taking the old value and storing the new one')
        ctx.ob('a successful return performs exactly %s' % (OPS[op] or 'no change'), '%s:%d (%s)' % (f.file, f.line, f.short))
        if not ok_exit:
            ctx.bad('effects', f, '%s:%d' % (f.file, f.line), 'no path performs %s' % (OPS[op] or 'nothing'))
    # queue ends
    for base, ins, rem in (('pcbuf', 'push', 'pop'), ('chan', 'write', 'read')):
        full = 'pfi::concurrent::' + base
        i = set()
        r = set()
        for (b, kind, op), e in ends.items():
            if b == full and op == '%s::%s' % (base, ins):
                i |= e
            if b == full and op == '%s::%s' % (base, rem):
                r |= e
        if base == 'chan':
            i |= set(ctx.__dict__.get('_write_ends', []))
        ctx.ob('first-in first-out: inserts at one end, removes at the other', full)
        if len(i) != 1 or len(r) != 1 or i == r:
            ctx.bad('queue-order', full, full, 'inserts at %s but removes at %s' % (sorted(i), sorted(r)))
    u = ends.get(('pfi::concurrent::chan', 'grow', 'chan::unget'), set())
    r = ends.get(('pfi::concurrent::chan', 'shrink', 'chan::read'), set())
    if u and r and u != r:
        ctx.bad('queue-order', 'pfi::concurrent::chan::unget', 'concurrent/chan.h', 'puts a value back at %s although reads take from %s' % (sorted(u), sorted(r)))
    check_link(ctx, model)
    miss = sorted(set(OPS) - seen)
    if miss:
        raise AnchorLost('operations not found: %s' % miss)


def check_write(ctx, model, f):
    """every attached reader gets the value"""
    loops = f.loops()
    grows = []
    for i in f.insts():
        for root, cls, mem, eff in model.accesses(f, i):
            if template_base(cls) == 'pfi::concurrent::chan' and eff == 'grow':
                grows.append((i, root))
    if not grows:
        ctx.bad('effects', f, '%s:%d' % (f.file, f.line), 'stores the value in no reader')
        return
    for i, root in grows:
        ctx.__dict__.setdefault('_write_ends', []).append('back' if i.callee.split('::')[-1] in xfer.INS_BACK else 'front')
        ctx.ob('the store is made once for every attached reader', '%s (%s)' % (i.where(), f.short))
        ins = [(h, b) for h, b in loops.items() if i.blk in b]
        if not ins:
            ctx.bad('not-all-readers', f, i.where(), 'the value is not stored in a loop over the attached readers')
            continue
        h, body = min(ins, key=lambda x: len(x[1]))
        # normal exits of the loop: only the end-of-set test
        for b in body:
            t = f.blocks[b][-1]
            for s in f.succs(b, exceptional=False):
                if s in body or t.op not in ('br', 'switch'):
                    continue
                if not t.ops or not depends_on_set_end(model, f, t.ops[0]):
                    ctx.bad('not-all-readers', f, t.where(), 'leaves the loop over the attached readers before the end')
        # every iteration stores
        first = [x for x in f.blocks[h] if x.op != 'phi'][0]

        class It(LockExplorer):
            def init_extra(self):
                return 'out'

            def on_inst(self, st, x, env):
                return (st[0], st[1], 'stored') if x is i else st

            def inst(self, st, x, env):
                if x is first:
                    if st[2] == 'iter':
                        ctx.bad('not-all-readers', f, i.where(), 'an iteration over the attached readers can skip the store')
                    st = (st[0], st[1], 'iter')
                return LockExplorer.inst(self, st, x, env)
        It(model, f).run()


def depends_on_set_end(model, f, cond):
    def pred(d):
        if d.iscall and d.callee.split('::')[-1] in ('end', 'cend'):
            for a in model.accesses(f, d):
                if a[2]['n'] and template_base(a[1]).startswith('pfi::concurrent::chan'):
                    return True
        return False
    return f.depends(cond, pred, memory=True)


def check_link(ctx, model):
    """a reader is attached by every constructor and detached by the destructor"""
    n = 0
    for f in model.prog.by_dem.values():
        if not f.cls or template_base(f.cls) != 'pfi::concurrent::chan':
            continue
        last = f.short.split('::')[-1]
        if last not in ('chan', '~chan'):
            continue
        want = 'shrink' if last.startswith('~') else 'grow'
        names = ('erase',) if want == 'shrink' else ('insert', 'emplace')

        class L(LockExplorer):
            def init_extra(self):
                return 0

            def on_access(self, st, i, accs, env):
                for root, cls, mem, eff in accs:
                    if cls.endswith('::link') and eff == want and i.callee.split('::')[-1] in names:
                        return (st[0], st[1], 1)
                return st

            def exit(self, st, i, env):
                if i.op == 'ret' and not st[2]:
                    ctx.bad('reader-link', f, i.where(), 'a path through the %s does not %s the reader' % ('destructor' if want == 'shrink' else 'constructor', 'detach' if want == 'shrink' else 'attach'))
        L(model, f).run()
        n += 1
        ctx.ob('the reader is %s on every path' % ('detached' if want == 'shrink' else 'attached'), '%s:%d (%s)' % (f.file, f.line, f.short))
    if n < 3:
        raise AnchorLost('chan constructors/destructor: %d' % n)
