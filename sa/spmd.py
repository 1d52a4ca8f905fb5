"""Rank-variance (SPMD uniformity) dataflow analysis.

Every value carries three sets of tokens saying why it can differ between MPI ranks:
  V  its value / contents,   L  its length, key set or shape,   N  whether it is None / which type it has.
A token is 'T:<origin>' (absolutely rank-variant) or ('p', name, bit) (depends on a parameter).
Flow-sensitive inside a function (structured walk with joins), summaries between functions, one cell per
(class, attribute).  The analysis is static: it walks syntax trees only.
"""
import ast
from collections import defaultdict
from .project import ClassInfo, FuncInfo, is_main_guard

E = frozenset()


def tj(a, b):
    """join two token sets; keep at most one absolute token"""
    if not a:
        return b
    if not b or a == b:
        return a
    u = a | b
    ts = [t for t in u if isinstance(t, str)]
    if len(ts) > 1:
        keep = [t for t in a if isinstance(t, str)][0]
        u = frozenset(t for t in u if not isinstance(t, str)) | {keep}
    return u


class B:
    __slots__ = ('V', 'L', 'N', 'elts', 'k', 'vn', 'o')

    def __init__(self, V=E, L=E, N=E, elts=None, k=None, vn=None):
        self.V, self.L, self.N, self.elts = V, L, N, elts
        self.vn = vn        # value number: ('p', parameter) or ('c', constant): equal numbers are equal values
        self.o = True       # False: no project object and no tracked container can be behind this argument
        self.k = k          # 'None', the name of a type, or None when the type is not known

    def __eq__(self, o):
        return self.V == o.V and self.L == o.L and self.N == o.N and self.elts == o.elts and self.k == o.k

    def with_k(self, k):
        return B(self.V, self.L, self.N, self.elts, k)

    def __repr__(self):
        return f'B(V={set(self.V)},L={set(self.L)},N={set(self.N)},{self.elts})'

    def any(self):
        return tj(tj(self.V, self.L), self.N)


CLEAN = B()


def join(a, b):
    if a is b:
        return a
    r = join_(a, b)
    if not a.o and not b.o and r.o:
        r = B(r.V, r.L, r.N, r.elts, r.k, r.vn)
        r.o = False
    return r


def join_(a, b):
    if a.vn is not None and a.vn == b.vn:
        if a.vn[0] == 'p':
            x = a.vn[1]
            return B(frozenset([('p', x, 'V')]), frozenset([('p', x, 'L')]), frozenset([('p', x, 'N')]), vn=a.vn)
        return B(k=a.k, vn=a.vn)
    el = None
    same = a.k == b.k and a.k is not None
    if not same and a.k not in (None, 'None') and b.k not in (None, 'None'):
        # something either way: whether it is None does not depend on which one it is
        return B(tj(a.V, b.V), tj(a.L, b.L), E, None, '+')
    N = E if same else tj(a.N, b.N)
    if a.elts is not None and b.elts is not None and len(a.elts) == len(b.elts):
        el = tuple(join(x, y) for x, y in zip(a.elts, b.elts))
        return B(tj(a.V, b.V), E if same else tj(a.L, b.L), N, el, a.k if same else None)
    if el is None and (a.k == 'None') != (b.k == 'None'):
        # None or something: only the something can be subscripted, measured or iterated
        o = b if a.k == 'None' else a
        return B(tj(a.V, b.V), o.L, N, o.elts, None)
    if same and a.k in ('None', 'bool', 'int', 'float'):
        return B(E if a.k == 'None' else tj(a.V, b.V), E, E, None, a.k)
    return B(tj(a.V, b.V), tj(a.L, b.L), N, el, a.k if same else None)


def aspect(V):
    """variance of an attribute of an object that is, or sits in, a parameter: counts only when the argument
    can hold objects at all"""
    return frozenset(('p', t[1], 'A') if not isinstance(t, str) and t[2] == 'V' else t for t in V)


def bit(b, n):
    if n == 'A':
        return b.V if b.o else E
    return getattr(b, n)


def taint(b, pc):
    """value assigned under a rank-variant condition"""
    if not pc:
        return b
    r = B(tj(b.V, pc), tj(b.L, pc), tj(b.N, pc),
          None if b.elts is None else tuple(taint(x, pc) for x in b.elts), b.k, b.vn)
    r.o = b.o
    return r


COLL_CLEAN = {'bcast', 'allreduce', 'allgather', 'Barrier', 'barrier'}
COLL_ROOT = {'gather', 'reduce'}
COLL_VAR = {'scatter', 'alltoall', 'scan', 'exscan'}
COLL_BUF = {'Bcast', 'Allreduce', 'Allgather', 'Allgatherv', 'Gather', 'Gatherv', 'Reduce', 'Scatter', 'Scatterv',
            'Alltoall', 'Alltoallv', 'Reduce_scatter'}
COLLECTIVES = COLL_CLEAN | COLL_ROOT | COLL_VAR | COLL_BUF | {'Split', 'Dup', 'Create', 'ibarrier', 'Ibarrier'}
ROOTED = {'bcast': 1, 'gather': 1, 'reduce': 2, 'scatter': 1, 'Bcast': 1, 'Gather': 2, 'Reduce': 3, 'Scatter': 2,
          'Gatherv': 2, 'Scatterv': 2}
P2P = {'send', 'recv', 'Send', 'Recv', 'isend', 'irecv', 'Isend', 'Irecv', 'sendrecv', 'Sendrecv', 'ssend', 'Ssend'}
SHAPE_FROM_VALUE = {'range', 'zeros', 'ones', 'empty', 'arange', 'linspace', 'unique', 'nonzero', 'argwhere', 'where',
                    'delete', 'setdiff1d', 'intersect1d', 'full', 'eye', 'split', 'array_split', 'set', 'filter',
                    'frozenset', 'repeat', 'flatnonzero'}
NP_ARRAY = {'zeros', 'ones', 'empty', 'full', 'arange', 'linspace', 'array', 'concatenate', 'zeros_like', 'ones_like',
            'empty_like', 'vstack', 'hstack', 'meshgrid', 'sin', 'cos', 'exp', 'sqrt', 'tile', 'repeat', 'split'} - \
    {'meshgrid', 'split'}
RANDOM_EXT = ('random.', 'numpy.random.', 'time.', 'datetime.', 'uuid.', 'os.getpid', 'tempfile.', 'socket.',
              'mpi4py.MPI.Wtime')
CONT_MUT = {'append', 'add', 'extend', 'update', 'insert', 'pop', 'remove', 'clear', 'setdefault', 'discard',
            'appendleft', 'popleft', 'popitem', 'sort', 'reverse'}
CLEAN_BUILTINS = {'isinstance', 'issubclass', 'type', 'callable', 'hasattr', 'id', 'print', 'super'}


class Event:
    __slots__ = ('f', 'ctx', 'node', 'kind', 'tokens', 'why', 'extra')

    def __init__(self, f, ctx, node, kind, tokens, why, extra=None):
        self.f, self.ctx, self.node, self.kind, self.tokens, self.why, self.extra = f, ctx, node, kind, tokens, why, \
            extra


class Summary:
    __slots__ = ('ret', 'coll', 'coll_wit', 'cond', 'retvals', 'mut')

    def __init__(self):
        self.ret = CLEAN
        self.coll = False         # may perform a collective
        self.coll_wit = None
        self.cond = {}            # token ('p', name, bit) -> witness: collectives controlled by that parameter
        self.retvals = []
        self.mut = {}             # param -> B joined into argument containers

    def key(self):
        return (self.ret, self.coll, frozenset(self.cond))


class Spmd:
    def __init__(self, p, a, log=None):
        self.p, self.a = p, a
        self.attr = defaultdict(lambda: CLEAN)      # (ClassInfo, attr)
        self.glob = defaultdict(lambda: CLEAN)      # (mod, name)
        self.outer = defaultdict(lambda: CLEAN)     # (fid, ctx, name)
        self.param = defaultdict(lambda: CLEAN)     # (fid, ctx, name) -> absolute only
        self.summ = {}
        self.fof = {id(f): f for m in p.mods.values() for f in m.functions}
        self.units = [(self.fof[fid], ctx) for fid, ctx in a.done
                      if not self.fof[fid].mod.is_legacy and not self.fof[fid].mod.is_test]
        self.units.sort(key=lambda u: (u[0].qual, str(u[1])))
        self.dep_attr = defaultdict(set)
        self.dep_summ = defaultdict(set)
        self.dep_param = defaultdict(set)
        self.dep_outer = defaultdict(set)
        self.dep_glob = defaultdict(set)
        self.globkeys = defaultdict(set)
        self.globlast = {}
        self.events = {}
        self.dirty = set()
        self.rets = {}
        self.log = log
        self.rounds = 0
        self.coll_fix()
        self.run()

    def coll_fix(self):
        """may-perform-a-collective, least fixpoint over the call graph"""
        direct = {}
        callers = defaultdict(set)
        lazy = {}
        for f, ctx in self.units:
            u = (id(f), ctx)
            if id(f) not in lazy:
                lazy[id(f)] = lazy_nodes(f)
            lz = lazy[id(f)]
            if lz is None:
                continue
            for n in own_exprs(f):
                if id(n) in lz:
                    continue
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in COLLECTIVES \
                        and self.is_comm(n.func, ctx, f):
                    direct.setdefault(u, (n, n.func.attr, None))
                for g, c2 in self.edges_of(n, ctx):
                    callers[(id(g), c2)].add((u, n))
        self.coll = dict(direct)
        todo = list(direct)
        while todo:
            u = todo.pop()
            for (v, n) in callers.get(u, ()):
                if v not in self.coll:
                    self.coll[v] = (n, None, u)
                    todo.append(v)

    def coll_chain(self, u, limit=8):
        out = []
        while u in self.coll and limit:
            n, kind, nxt = self.coll[u]
            f = self.fof[u[0]]
            out.append(f'{f.mod.rel}:{n.lineno} {f.qual.split(".")[-1]}' + (f' -> COMM.{kind}' if kind else ''))
            if nxt is None:
                break
            u = nxt
            limit -= 1
        return ' -> '.join(out)

    def edges_of(self, n, ctx):
        """call edges at node n; operator dispatch is followed only where the receiver's possible values are
        all instances (an operand that may also be an array or a container is not followed)"""
        es = self.a.call_edges.get((id(n), ctx), ())
        if not es:
            return es
        if isinstance(n, ast.Call):
            return es
        recv = None
        if isinstance(n, ast.BinOp):
            recv = n.left
            if not any(v[0] == 'I' for v in self.a.pts.get(('x', id(recv), ctx), ())):
                recv = n.right
        elif isinstance(n, ast.Compare):
            recv = n.comparators[0] if isinstance(n.ops[0], (ast.In, ast.NotIn)) else n.left
        elif isinstance(n, ast.Subscript):
            recv = n.value
        if recv is not None:
            vs = self.a.pts.get(('x', id(recv), ctx), ())
            if any(v[0] != 'I' for v in vs) or len({v[1].orig or v[1] for v in vs}) > 3:
                return ()
        return es

    def is_comm(self, func, ctx, f):
        """func: ast.Attribute COMM.xxx"""
        vals = self.a.pts.get(('x', id(func.value), ctx), ())
        for v in vals:
            if v[0] == 'X' and ('COMM_WORLD' in v[1] or v[1].endswith('.COMM')):
                return True
        return False

    def run(self):
        # module level code first
        for m in sorted(self.p.mods.values(), key=lambda m: m.name):
            if m.is_legacy or m.is_test:
                continue
            Walk(self, None, None, m).module()
        work = set(range(len(self.units)))
        idx = {(id(f), ctx): i for i, (f, ctx) in enumerate(self.units)}
        self.idx = idx
        order = 0
        while work:
            self.rounds += 1
            if self.rounds > 40:
                break
            cur = sorted(work)
            work = set()
            self.dirty = set()
            for i in cur:
                f, ctx = self.units[i]
                if f.outer is not None and (id(f.outer), ctx) in idx and False:
                    continue
                Walk(self, f, ctx, f.mod).function()
            work = {idx[u] for u in self.dirty if u in idx}
            if self.log:
                self.log(f'spmd round {self.rounds}: {len(cur)} units, next {len(work)}')

    # table updates ---------------------------------------------------------------------------------------
    # Replication contracts taken as given (reason): the listed bits of an attribute are equal on all ranks.
    TRUST = {
        # a locally full vector is, by definition of the class, the same full array on every rank
        ('LocallyFullVector', '_V_'): 'VLN',
        # the storage class (csr / csc) and the shape of the local part of a global matrix are the same on every rank
        ('GlobalMatrix', '_M_'): 'LN',
        # block structure of a concatenated system: built from the (replicated) list of blocks
        ('EWC_SpaMat_Blocks', '___BLOCKS___'): 'VLN',
        ('EWC_ColVec_Blocks', '___BLOCKS___'): 'VLN',
        ('GlobalVector', '_V_'): 'LN',
        ('DistributedVector', '_V_'): 'LN',
    }

    def upd(self, table, dep, key, b):
        b = absolute(b)
        if table is self.attr and b.any():
            t = self.TRUST.get((key[0].name, key[1]))
            if t is not None:
                b = B(E if 'V' in t else b.V, E if 'L' in t else b.L, E if 'N' in t else b.N, None, b.k)
        old = table[key]
        new = join(old, b)
        if old is CLEAN and key not in table.keys():
            new = b
        if key in self.seen_keys(table):
            if new != old:
                table[key] = new
                self.dirty |= dep.get(key, set())
        else:
            self.seen_keys(table).add(key)
            table[key] = b
            if b != CLEAN:
                self.dirty |= dep.get(key, set())

    def seen_keys(self, table):
        s = getattr(self, '_seen_', None)
        if s is None:
            s = self._seen_ = {}
        return s.setdefault(id(table), set())

    def summary(self, u):
        s = self.summ.get(u)
        if s is None:
            s = self.summ[u] = Summary()
        return s


def absolute(b):
    def ab(s):
        return frozenset(t for t in s if isinstance(t, str))
    return B(ab(b.V), ab(b.L), ab(b.N), None if b.elts is None else tuple(absolute(x) for x in b.elts), b.k)


def lazy_nodes(f):
    """ids of the nodes executed only when a memoised attribute of self is still unset (first access);
    None when the whole function is memoised"""
    if any(d.startswith('memoize') or d in ('lru_cache', 'cache', 'functools.lru_cache', 'cached_property')
           for d in f.decos):
        return None
    out = set()
    if f.is_lambda or not f.params:
        return out
    slf = f.params[0]

    def cells(t):
        """lvalue dumps whose unset-ness is tested"""
        if isinstance(t, ast.Compare) and len(t.ops) == 1:
            r = t.comparators[0]
            if isinstance(t.ops[0], ast.Is) and isinstance(r, ast.Constant) and r.value is None:
                return [t.left]
            if isinstance(t.ops[0], ast.NotIn):
                return [r]
            if isinstance(t.ops[0], (ast.NotEq,)):
                return [x for x in (t.left, r)]
        if isinstance(t, ast.BoolOp):
            return [c for v in t.values for c in cells(v)]
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not) and isinstance(t.operand, ast.Call) and \
                isinstance(t.operand.func, ast.Name) and t.operand.func.id == 'hasattr':
            return [t.operand.args[0]]
        return []

    def root_attr(e):
        while isinstance(e, ast.Subscript):
            e = e.value
        if isinstance(e, ast.Attribute):
            return ast.unparse(e)
        return None

    def stored(body):
        res = set()
        for s in body:
            for n in ast.walk(s):
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        for x in ([t] if not isinstance(t, (ast.Tuple, ast.List)) else t.elts):
                            r = root_attr(x)
                            if r:
                                res.add(r)
        return res

    def calls_self(body):
        return {n.func.attr for s in body for n in ast.walk(s) if isinstance(n, ast.Call) and
                isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == slf}

    for n in own_exprs(f):
        if isinstance(n, ast.If):
            cs = {root_attr(c) for c in cells(n.test)} - {None}
            if not cs:
                continue
            st = stored(n.body)
            ok = cs & st
            if not ok and f.cls is not None:
                for m in calls_self(n.body):
                    g = f.cls.find(m)
                    if g is not None and cs & stored(g.node.body):
                        ok = True
            if ok:
                for s in n.body:
                    for x in ast.walk(s):
                        out.add(id(x))
    # if cache is not None: return cache ; <compute and store>   (early-return form)
    body = f.node.body
    for i, s in enumerate(body):
        if isinstance(s, ast.If) and not s.orelse and len(s.body) == 1 and isinstance(s.body[0], ast.Return) and \
                s.body[0].value is not None:
            t = s.test
            c = None
            if isinstance(t, ast.Compare) and len(t.ops) == 1:
                r = t.comparators[0]
                if isinstance(t.ops[0], ast.IsNot) and isinstance(r, ast.Constant) and r.value is None:
                    c = root_attr(t.left)
                elif isinstance(t.ops[0], ast.In):
                    c = root_attr(r)
            if c and c in stored(body[i + 1:]):
                for q in body[i + 1:]:
                    for x in ast.walk(q):
                        out.add(id(x))
    return out


def own_exprs(f):
    todo = list(f.node.body) if isinstance(f.node.body, list) else [f.node.body]
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))


class Walk:
    def __init__(self, A, f, ctx, mod):
        self.A, self.f, self.ctx, self.mod = A, f, ctx, mod
        self.a, self.p = A.a, A.p
        self.env = {}
        self.pc = E         # rank-variant control over data
        self.cpc = E        # rank-variant control over communication
        self.u = (id(f), ctx) if f is not None else ('mod', mod.name)
        self.ret = None
        self.loops = []
        self.defer = {}
        self.ev_out = {}
        self.retlist = []
        self.self_name = None
        self.self_vals = ()

    # ---- entry ------------------------------------------------------------------------------------------
    def module(self):
        self.block(self.mod.tree.body)

    def function(self):
        f = self.f
        for x in f.params + f.kwonly + [y for y in (f.vararg, f.kwarg) if y]:
            self.env[x] = B(frozenset([('p', x, 'V')]), frozenset([('p', x, 'L')]), frozenset([('p', x, 'N')]),
                            vn=('p', x))
            self.A.dep_param[(id(f), self.ctx, x)].add(self.u)
        if f.params and f.kind in ('method', 'prop', 'setter', 'class', 'classprop'):
            self.env[f.params[0]] = CLEAN
            if f.kind in ('method', 'prop', 'setter') and not f.is_lambda:
                self.self_name = f.params[0]
        if f.is_lambda:
            self.ret = self.ev(f.node.body)
        else:
            if not self.block(f.node.body):
                self.flush()
        s = self.A.summary(self.u)
        new = self.ret or CLEAN
        if new.any() and len(self.retlist) > 1 and self.same_returns():
            self.pc = self.cpc = E
            for r in self.retlist:
                if not isinstance(r[0].value, ast.Name):
                    new = self.ev(r[0].value)
                    break
        nk = (new, frozenset(self.ev_cond()))
        if s.ret != new or frozenset(s.cond) != nk[1]:
            s.ret = new
            s.cond = self.ev_cond()
            self.A.dirty |= self.A.dep_summ.get(self.u, set())
        self.A.events[self.u] = self.ev_out
        self.A.rets[self.u] = self.retlist

    def same_returns(self):
        """every return hands back the same expression over unmodified parameters"""
        f = self.f
        binds = {}
        for n in own_exprs(f):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                binds.setdefault(n.id, []).append(n)
        val = {}
        for n in own_exprs(f):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and \
                    len(binds.get(n.targets[0].id, ())) == 1:
                val[n.targets[0].id] = n.value
        allp = set(f.params) | set(f.kwonly) | {f.vararg, f.kwarg}
        ds = set()
        for r in self.retlist:
            x = r[0].value
            if isinstance(x, ast.Name) and x.id in val:
                x = val[x.id]
            if x is None or any(isinstance(n, ast.Name) and (n.id not in allp or n.id in binds) for n in ast.walk(x)):
                return False
            ds.add(ast.dump(x))
        return len(ds) == 1

    # attributes of self are flow sensitive inside a function: env['.x'] is the current value of self.x, the
    # class-wide cell receives the values they have where the function leaves (or calls out with self)
    def flush(self):
        for k, b in self.env.items():
            if k[0] == '.':
                rb = self.resolve(b)
                for c in self.self_vals:
                    self.A.upd(self.A.attr, self.A.dep_attr, (c, k[1:]), rb)

    def self_attr(self, t):
        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and self.self_name is not None and \
                t.value.id == self.self_name:
            vs = self.vals(t.value)
            if vs and all(v[0] == 'I' and v[1].find_setter(t.attr) is None and v[1].find(t.attr) is None for v in vs):
                self.self_vals = tuple(dict.fromkeys(v[1] for v in vs))
                return '.' + t.attr
        return None

    def ev_cond(self):
        out = {}
        for ev in self.ev_out.values():
            for t in ev.tokens:
                if not isinstance(t, str):
                    out.setdefault(t, ev)
        return out

    # ---- control ----------------------------------------------------------------------------------------
    def block(self, stmts):
        """returns True if the block always leaves (return/raise/break/continue)"""
        i = 0
        while i < len(stmts):
            s = stmts[i]
            if is_main_guard(s):
                i += 1
                continue
            if isinstance(s, ast.If):
                r = self.do_if(s, stmts[i + 1:])
                if r == 'consumed':
                    return True
                if r:
                    return True
                i += 1
                continue
            if self.stmt(s):
                return True
            i += 1
        return False

    def snapshot(self):
        return dict(self.env)

    def merge(self, e1, e2):
        if e1 is None:
            return e2
        if e2 is None:
            return e1
        out = {}
        for k in set(e1) | set(e2):
            if k in e1 and k in e2:
                out[k] = join(e1[k], e2[k])
            elif k[0] == '.':
                b = e1[k] if k in e1 else e2[k]
                for c in self.self_vals:
                    b = join(b, self.attr_bits(c, k[1:]))
                out[k] = b
            else:
                out[k] = e1.get(k) or e2.get(k)
        return out

    def named(self, c, s):
        if c and any(t == 'T:rank' for t in c):
            c = frozenset(t if t != 'T:rank' else f'T:rank (branch at {self.mod.rel}:{s.lineno})' for t in c)
        return c

    def do_if(self, s, rest):
        c = self.named(self.cond(s.test), s)
        saved_pc, saved_cpc = self.pc, self.cpc
        env0 = self.snapshot()
        balanced = False
        const = self.const_test(s.test)
        if c:
            sa = self.commseq(s.body)
            sb = self.commseq(s.orelse)
            ta, tb = terminates(s.body), terminates(s.orelse)
            if ta and not tb:
                sb = sb + self.commseq(rest)
            elif tb and not ta:
                sa = sa + self.commseq(rest)
            if sa and sa == sb:
                balanced = True
        self.pc = tj(saved_pc, c)
        if not balanced:
            self.cpc = tj(saved_cpc, c)
        ta = self.block(s.body) if const is not False else False
        env_a = self.env
        pa, ca = self.pc, self.cpc
        self.env = dict(env0)
        self.pc = tj(saved_pc, c)
        self.cpc = tj(saved_cpc, c) if not balanced else saved_cpc
        tb = self.block(s.orelse) if const is not True else False
        env_b = self.env
        # raising does not matter for alignment, leaving normally does
        la, lb = leaves(s.body), leaves(s.orelse)
        self.pc, self.cpc = saved_pc, saved_cpc
        if ta and tb:
            self.env = self.merge(env_a, env_b)
            return True
        if ta:
            self.env = env_b
        elif tb:
            self.env = env_a
        else:
            self.env = self.merge(env_a, env_b)
        if c and (la or lb):
            # some ranks may have left: everything after this point (in the loop / function) is rank-variant
            kind = la | lb
            self.leave(c, kind, balanced)
        return False

    def leave(self, c, kinds, balanced):
        if 'return' in kinds:
            self.pc = tj(self.pc, c)
            if not balanced:
                self.cpc = tj(self.cpc, c)
                for fr in self.loops:
                    fr['c'] = tj(fr['c'], c)
                    fr['ret'] = tj(fr['ret'], c)
        if 'break' in kinds or 'continue' in kinds:
            self.pc = tj(self.pc, c)
            if not balanced:
                self.cpc = tj(self.cpc, c)
            if self.loops:
                if 'break' in kinds:
                    self.loops[-1]['d'] = tj(self.loops[-1]['d'], c)
                    if not balanced:
                        self.loops[-1]['c'] = tj(self.loops[-1]['c'], c)

    def const_test(self, t):
        if isinstance(t, ast.Constant):
            return bool(t.value)
        return None

    def loop(self, s, head):
        """generic loop: iterate body to a small fixpoint"""
        saved_pc, saved_cpc = self.pc, self.cpc
        fr = {'c': E, 'd': E, 'ret': E}
        self.loops.append(fr)
        for it in range(4):
            env0 = self.snapshot()
            c = head()
            self.pc = tj(tj(saved_pc, c), fr['d'])
            self.cpc = tj(tj(saved_cpc, c), fr['c'])
            before = (fr['c'], fr['d'])
            self.block(s.body)
            self.env = self.merge(env0, self.env)
            if self.env == env0 and before == (fr['c'], fr['d']):
                break
        self.loops.pop()
        self.pc, self.cpc = saved_pc, saved_cpc
        if fr['ret']:
            self.pc = tj(self.pc, fr['ret'])
            self.cpc = tj(self.cpc, fr['ret'])
        if s.orelse:
            sp, sc = self.pc, self.cpc
            self.pc, self.cpc = tj(sp, fr['d']), tj(sc, fr['c'])
            self.block(s.orelse)
            self.pc, self.cpc = sp, sc

    def stmt(self, s):
        if isinstance(s, ast.Expr):
            self.ev(s.value)
        elif isinstance(s, ast.Assign):
            v = self.ev(s.value)
            for t in s.targets:
                self.assign(t, v)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.assign(s.target, self.ev(s.value))
        elif isinstance(s, ast.AugAssign):
            v = self.ev(s.value)
            if isinstance(s.target, ast.Name):
                self.edges(s, self.getvar(s.target.id, s.target), v)
            else:
                self.edges(s)
            if isinstance(s.target, ast.Name):
                old = self.getvar(s.target.id, s.target)
                nb = B(tj(old.V, v.any()), tj(old.L, v.L), old.N)
                nb.o = old.o or v.o
                self.assign(s.target, nb)
            else:
                if isinstance(s.target, (ast.Attribute, ast.Subscript)):
                    self.ev(s.target.value)
                self.assign(s.target, v)
        elif isinstance(s, ast.Return):
            v = self.ev(s.value) if s.value is not None else CLEAN
            isnone = s.value is None or (isinstance(s.value, ast.Constant) and s.value.value is None)
            v0 = v
            v = taint(v, self.pc)
            self.flush()
            self.retlist.append((s, v, self.pc, v0))
            if self.ret is None:
                self.ret = v
            else:
                self.ret = join(self.ret, v)
            return True
        elif isinstance(s, ast.Raise):
            if s.exc is not None:
                self.ev(s.exc)
            return True
        elif isinstance(s, (ast.Break, ast.Continue)):
            return True
        elif isinstance(s, ast.While):
            self.loop(s, lambda: self.cond(s.test))
            if isinstance(s.test, ast.Constant) and s.test.value and not has_break(s.body):
                return True
        elif isinstance(s, ast.For):
            it = self.ev(s.iter)
            self.iter_edges(s.iter)

            def head():
                b = self.iter_bits(s.iter, it)
                self.assign(s.target, b[0])
                return b[1]
            d = map_update(s)
            if d is None or d in self.defer:
                self.loop(s, head)
            else:
                self.defer[d] = []
                self.loop(s, head)
                for b in self.defer.pop(d):
                    self.mutate(s.iter, b)
        elif isinstance(s, ast.With):
            for w in s.items:
                v = self.ev(w.context_expr)
                if w.optional_vars is not None:
                    self.assign(w.optional_vars, v)
            return self.block(s.body)
        elif isinstance(s, ast.Try):
            env0 = self.snapshot()
            t = self.block(s.body)
            if not t and s.orelse:
                t = self.block(s.orelse)
            envs = self.env
            allt = t
            for h in s.handlers:
                self.env = self.merge(env0, envs)
                th = self.block(h.body)
                if not th:
                    envs = self.env if allt else self.merge(envs, self.env)
                    allt = False
            self.env = envs
            if s.finalbody:
                if self.block(s.finalbody):
                    return True
            return allt
        elif isinstance(s, ast.Assert):
            # evaluated for communication effects; failure aborts the program
            self.ev(s.test)
        elif isinstance(s, ast.If):
            return self.do_if(s, [])
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Subscript):
                    self.mutate(t.value, B(L=tj(self.pc, self.ev(t.slice).V)))
        elif isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            self.env[s.name] = CLEAN
        elif isinstance(s, (ast.Import, ast.ImportFrom)):
            if self.f is not None:
                for name in self.p.import_bindings(self.mod, s):
                    self.env.pop(name, None)
        return False

    # ---- names ------------------------------------------------------------------------------------------
    def getvar(self, name, node):
        if name in self.env:
            return self.env[name]
        f = self.f
        if f is not None:
            if f.locals and name in f.locals:
                return CLEAN
            o = f.outer
            while o is not None:
                if o.locals and name in o.locals:
                    k = (id(o), self.ctx, name)
                    self.A.dep_outer[k].add(self.u)
                    return self.A.outer[k]
                o = o.outer
        r = self.p.lookup(self.mod, name)
        if isinstance(r, tuple) and r[0] == 'var':
            k = (r[1].name, r[2])
            self.A.dep_glob[k].add(self.u)
            b = self.A.glob[k]
            for kk in self.A.globkeys.get(k, ()):
                x = self.A.glob[kk]
                b = B(tj(b.V, x.any()), b.L, b.N, None, b.k)
            return b
        return CLEAN

    def glob_key(self, e):
        """D['k'] for a module level dict D: one cell per constant key"""
        if isinstance(e.value, ast.Name) and isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, str) \
                and self.f is not None and e.value.id not in self.env and not self.is_outer_local(e.value.id):
            r = self.p.lookup(self.mod, e.value.id)
            if isinstance(r, tuple) and r[0] == 'var':
                return (r[1].name, r[2], e.slice.value)
        return None

    def is_outer_local(self, name):
        f = self.f
        while f is not None:
            if f.locals and name in f.locals:
                return True
            f = f.outer
        return False

    def glob_put(self, key, b):
        self.A.globkeys[key[:2]].add(key)
        self.A.upd(self.A.glob, self.A.dep_glob, key, self.resolve(b))
        self.A.dirty |= self.A.dep_glob.get(key[:2], set()) if key not in self.A.globlast or \
            self.A.glob[key] != self.A.globlast[key] else set()
        self.A.globlast[key] = self.A.glob[key]

    def setvar(self, name, b):
        if self.f is None:
            self.env[name] = b
            self.A.upd(self.A.glob, self.A.dep_glob, (self.mod.name, name), b)
            return
        if name in self.f.locals:
            self.env[name] = b
            if self.f.nested or self.f.node is not None:
                self.A.upd(self.A.outer, self.A.dep_outer, (id(self.f), self.ctx, name), self.resolve(b))
        else:
            r = self.p.lookup(self.mod, name)
            self.A.upd(self.A.glob, self.A.dep_glob, (self.mod.name, name), self.resolve(b))

    def resolve(self, b):
        """What a store into a shared cell (attribute, global, closure) remembers: absolute tokens only.
        Variance that reaches a cell through a parameter is not followed (under-approximation, see DESIGN)."""
        return absolute(b)

    def assign(self, t, v):
        v = taint(v, self.pc)
        if isinstance(t, ast.Name):
            self.setvar(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, x in enumerate(t.elts):
                if v.elts is not None and len(v.elts) == len(t.elts):
                    self.assign(x, v.elts[i])
                else:
                    self.assign(x, B(tj(v.V, E), v.V, v.N & frozenset()))
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)
        elif isinstance(t, ast.Attribute):
            self.ev(t.value)
            self.edges(t)
            rb = None
            sk = self.self_attr(t)
            if sk is not None:
                self.env[sk] = v
                return
            for val in self.vals(t.value):
                if val[0] == 'I':
                    if val[1].find_setter(t.attr) is not None:
                        g = val[1].find_setter(t.attr)
                        rb = rb or self.resolve(v)
                        if len(g.params) > 1:
                            self.A.upd(self.A.param, self.A.dep_param, (id(g), val[1], g.params[1]), rb)
                        self.comm_call((id(g), val[1]), t)
                    else:
                        rb = rb or self.resolve(v)
                        self.A.upd(self.A.attr, self.A.dep_attr, (val[1], t.attr), rb)
                elif val[0] == 'C':
                    rb = rb or self.resolve(v)
                    self.A.upd(self.A.attr, self.A.dep_attr, (val[1], t.attr), rb)
        elif isinstance(t, ast.Subscript):
            k = self.ev(t.slice) if not isinstance(t.slice, ast.Slice) else self.ev_slice(t.slice)
            arr = isinstance(t.slice, (ast.Slice, ast.Tuple))
            self.edges(t)
            key = self.glob_key(t)
            if key is not None:
                self.glob_put(key, v)
                return
            kl = E if arr else tj(k.V, self.pc)
            self.mutate(t.value, B(tj(v.any(), tj(k.V, self.pc)), kl, E))

    def mutate(self, target, b):
        """join b into the container denoted by an lvalue expression"""
        if isinstance(target, ast.Name):
            if target.id in self.defer:
                self.defer[target.id].append(b)
                return
            old = self.getvar(target.id, target)
            nb = B(tj(old.V, b.V), tj(old.L, b.L), old.N, None, old.k)
            nb.o = old.o or self.objs(target)
            self.setvar(target.id, nb)
        elif isinstance(target, ast.Attribute):
            self.ev(target.value)
            sk = self.self_attr(target)
            if sk is not None and sk in self.env:
                old = self.env[sk]
                self.env[sk] = B(tj(old.V, b.V), tj(old.L, b.L), tj(old.N, b.N), None, old.k)
                return
            rb = self.resolve(b)
            for val in self.vals(target.value):
                if val[0] in ('I', 'C'):
                    self.A.upd(self.A.attr, self.A.dep_attr, (val[1], target.attr), rb)
        elif isinstance(target, ast.Subscript):
            k = self.ev(target.slice) if not isinstance(target.slice, ast.Slice) else CLEAN
            key = self.glob_key(target)
            if key is not None:
                self.glob_put(key, b)
                return
            self.mutate(target.value, B(tj(tj(b.V, b.L), k.V), E, E))
        elif isinstance(target, ast.Call):
            self.ev(target)

    # ---- communication events ---------------------------------------------------------------------------
    def event(self, node, kind, why, extra=None):
        if self.f is None:
            return
        toks = self.cpc
        if not toks:
            self.ev_out.setdefault((id(node), kind), Event(self.f, self.ctx, node, kind, E, why, extra))
            return
        old = self.ev_out.get((id(node), kind))
        if old is not None:
            toks = tj(toks, old.tokens)
        self.ev_out[(id(node), kind)] = Event(self.f, self.ctx, node, kind, toks, why, extra)

    def comm_call(self, u, node):
        """u may be executed at node"""
        if u in self.A.coll:
            self.event(node, 'call', u)

    # ---- expressions ------------------------------------------------------------------------------------
    def vals(self, e):
        return self.a.pts.get(('x', id(e), self.ctx), ()) if not isinstance(e, ast.Name) or True else ()

    def edges(self, node, *operands):
        """operator / subscript / property dispatch at node: communication effects"""
        if operands and all(not b.o for b in operands):
            return
        for g, c2 in self.A.edges_of(node, self.ctx):
            self.comm_call((id(g), c2), node)

    def iter_edges(self, node):
        for g, c2 in self.a.call_edges.get((id(node), self.ctx), ()):
            if g.name in ('__iter__', '__next__', '__getitem__'):
                self.comm_call((id(g), c2), node)

    def iter_bits(self, node, b):
        """-> (bits of the loop variable, control tokens of the loop)"""
        insts = [v for v in self.vals(node) if v[0] == 'I']
        L = b.L
        tv = B(tj(b.V, b.L), b.V, E)
        if insts:
            L = V = aspect(b.V)
            for v in insts:
                for nm in ('__iter__', '__len__'):
                    g = v[1].find(nm)
                    if g is not None:
                        r = self.call_summary((id(g), v[1]), None, None, node)
                        L = tj(L, r.L)
                        V = tj(V, tj(r.V, r.L))
                        if nm == '__len__':
                            L = tj(L, r.V)
            return B(V, V, E), L
        if b.elts is not None:
            x = CLEAN
            for q in b.elts:
                x = join(x, q)
            return B(x.V, x.L, x.N), E
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id in ('enumerate', 'zip'):
            subs = [self.iter_bits(x, self.env_ev(x)) for x in node.args]
            L = E
            for _, l in subs:
                L = tj(L, l)
            els = [x[0] for x in subs]
            if node.func.id == 'enumerate':
                els = [B(L, E, E)] + els[:1]
            return B(tv.V, tv.L, E, tuple(els)), L
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id == 'range':
            return B(b.V, E, E), b.L
        return tv, L

    def env_ev(self, e):
        return self.ev(e)

    def cond(self, t):
        """tokens on which the truth of t depends"""
        if isinstance(t, ast.Compare) and len(t.ops) == 1:
            op, l, r = t.ops[0], t.left, t.comparators[0]
            if isinstance(op, (ast.Is, ast.IsNot)) and isinstance(r, ast.Constant) and r.value is None:
                return self.ev(l).N
            if isinstance(l, ast.Attribute) and l.attr in ('__name__', '__class__'):
                return tj(self.clsbits(l), self.ev(r).V)
            if isinstance(op, (ast.In, ast.NotIn)):
                bl, br = self.ev(l), self.ev(r)
                self.edges(t)
                insts = [v for v in self.vals(r) if v[0] == 'I']
                if insts:
                    out = tj(bl.V, br.V)
                    for v in insts:
                        for nm in ('__contains__', '__iter__'):
                            g = v[1].find(nm)
                            if g is not None:
                                q = self.call_summary((id(g), v[1]), None, None, t)
                                out = tj(out, q.any())
                                break
                    return out
                return tj(bl.V, tj(br.L, br.V if not self.is_dict(r) else br.L))
        if isinstance(t, ast.Compare):
            out = E
            for x in [t.left] + t.comparators:
                b = self.ev(x)
                out = tj(out, tj(b.V, E if self.scalarish(x) else b.L))
            self.edges(t)
            return out
        if isinstance(t, ast.BoolOp):
            out = E
            for x in t.values:
                # short circuit: later operands are evaluated under the earlier ones
                sp, sc = self.pc, self.cpc
                self.cpc = tj(self.cpc, out)
                c = self.cond(x)
                self.pc, self.cpc = sp, sc
                out = tj(out, c)
            return out
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            return self.cond(t.operand)
        if isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id in ('isinstance', 'callable',
                                                                                      'hasattr'):
            for x in t.args[1:]:
                self.ev(x)
            return self.ev(t.args[0]).N
        b = self.ev(t)
        return b.any()

    def clsbits(self, e):
        while isinstance(e, ast.Attribute):
            e = e.value
            if not (isinstance(e, ast.Attribute) and e.attr in ('__name__', '__class__')):
                break
        return self.ev(e).N

    def scalarish(self, e):
        return isinstance(e, ast.Constant)

    def is_dict(self, e):
        vs = self.vals(e)
        return bool(vs) and all(v[0] == 'D' for v in vs)

    def ev(self, e):
        if e is None:
            return CLEAN
        if isinstance(e, (ast.Attribute, ast.Call, ast.Subscript, ast.BinOp)):
            b = getattr(self, 'e_' + e.__class__.__name__)(e)
            if b.o and not self.objs(e):
                b = B(b.V, b.L, b.N, b.elts, b.k, b.vn)
                b.o = False
            elif not b.o and self.objs(e):
                b = B(b.V, b.L, b.N, b.elts, b.k, b.vn)
            return b
        m = getattr(self, 'e_' + e.__class__.__name__, None)
        if m is None:
            out = CLEAN
            for ch in ast.iter_child_nodes(e):
                if isinstance(ch, ast.expr):
                    b = self.ev(ch)
                    out = B(tj(out.V, b.any()), tj(out.L, b.L), E)
            return out
        return m(e)

    def ev_slice(self, s):
        V = E
        for x in (s.lower, s.upper, s.step):
            if x is not None:
                V = tj(V, self.ev(x).V)
        return B(V, V, E)

    def e_Name(self, e):
        return self.getvar(e.id, e)

    def e_Constant(self, e):
        return B(k=type(e.value).__name__.replace('NoneType', 'None'), vn=('c', repr(e.value)))

    def e_Lambda(self, e):
        return CLEAN

    def e_JoinedStr(self, e):
        V = E
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                V = tj(V, self.ev(v.value).V)
        return B(V, E, E, None, 'str')

    def e_Tuple(self, e):
        els = []
        star = False
        V = L = E
        for x in e.elts:
            if isinstance(x, ast.Starred):
                b = self.ev(x.value)
                star = True
                L = tj(L, b.L)
                V = tj(V, b.V)
            else:
                b = self.ev(x)
                V = tj(V, b.any())
            els.append(b)
        return B(V, L, E, None if star else tuple(els), 'tuple' if isinstance(e, ast.Tuple) else 'list')

    e_List = e_Tuple

    def e_Set(self, e):
        b = self.e_Tuple(e)
        return B(b.V, tj(b.L, b.V), E)

    def e_Dict(self, e):
        V = L = E
        for k, v in zip(e.keys, e.values):
            if k is None:
                b = self.ev(v)
                V, L = tj(V, b.V), tj(L, b.L)
            else:
                L = tj(L, self.ev(k).V)
                V = tj(V, self.ev(v).any())
        return B(V, L, E, None, 'dict')

    def comp(self, e, *elts):
        saved = dict(self.env)
        sp, sc = self.pc, self.cpc
        L = E
        for g in e.generators:
            it = self.ev(g.iter)
            self.iter_edges(g.iter)
            tb, c = self.iter_bits(g.iter, it)
            self.assign_local(g.target, tb)
            L = tj(L, c)
            self.cpc = tj(self.cpc, c)
            for x in g.ifs:
                cc = self.cond(x)
                L = tj(L, cc)
                self.cpc = tj(self.cpc, cc)
        V = E
        key = CLEAN
        for i, x in enumerate(elts):
            b = self.ev(x)
            if len(elts) == 2 and i == 0:
                L = tj(L, b.V)
            V = tj(V, b.any())
        V = tj(V, L)
        self.pc, self.cpc = sp, sc
        self.env = saved
        return B(V, L, E)

    def assign_local(self, t, v):
        if isinstance(t, ast.Name):
            self.env[t.id] = v
            if self.f is not None:
                self.A.upd(self.A.outer, self.A.dep_outer, (id(self.f), self.ctx, t.id), self.resolve(v))
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, x in enumerate(t.elts):
                self.assign_local(x, v.elts[i] if v.elts is not None and len(v.elts) == len(t.elts)
                                  else B(v.V, v.V, E))

    def e_ListComp(self, e):
        return self.comp(e, e.elt).with_k('list')

    def e_GeneratorExp(self, e):
        return self.comp(e, e.elt)

    def e_SetComp(self, e):
        b = self.comp(e, e.elt)
        return B(b.V, tj(b.L, b.V), E)

    def e_DictComp(self, e):
        return self.comp(e, e.key, e.value).with_k('dict')

    def e_IfExp(self, e):
        c = self.cond(e.test)
        sc = self.cpc
        if c and self.seq_of(e.body) != self.seq_of(e.orelse):
            self.cpc = tj(sc, c)
        b = join(self.ev(e.body), self.ev(e.orelse))
        self.cpc = sc
        return taint(b, c)

    def e_BoolOp(self, e):
        out = CLEAN
        sc = self.cpc
        c = E
        for x in e.values:
            self.cpc = tj(sc, c)
            b = self.ev(x)
            c = tj(c, b.any())
            out = join(out, b)
        self.cpc = sc
        return out

    def e_UnaryOp(self, e):
        if isinstance(e.op, ast.Not):
            return B(self.cond(e), E, E)
        self.edges(e)
        b = self.ev(e.operand)
        return B(b.V, b.L, E)

    def e_Compare(self, e):
        return B(self.cond(e), E, E) if len(e.ops) == 1 else B(self.cond(e), E, E)

    def e_BinOp(self, e):
        l, r = self.ev(e.left), self.ev(e.right)
        self.edges(e, l, r)
        rs = [s for s in self.A.edges_of(e, self.ctx)] if l.o or r.o else []
        if rs and any(v[0] == 'I' for v in list(self.vals(e.left)) + list(self.vals(e.right))):
            out = CLEAN
            for g, c2 in rs:
                out = join(out, self.call_summary((id(g), c2), [r if g.name[2:3] != 'r' else l], {}, e))
            return out
        L = tj(l.L, r.L)
        if isinstance(e.op, ast.Mult) and isinstance(e.left, (ast.List,)):
            L = tj(L, r.V)
        if isinstance(e.op, ast.Mult) and isinstance(e.right, (ast.List,)):
            L = tj(L, l.V)
        k = 'arr' if 'arr' in (l.k, r.k) else (l.k if l.k == r.k and l.k in ('int', 'float', 'str', 'list', 'tuple')
                                               and not isinstance(e.op, ast.Div) else None)
        return B(tj(l.any(), r.any()), L, E, None, k)

    def e_NamedExpr(self, e):
        v = self.ev(e.value)
        self.assign(e.target, v)
        return v

    def e_Starred(self, e):
        return self.ev(e.value)

    def e_Yield(self, e):
        v = self.ev(e.value) if e.value is not None else CLEAN
        v = B(tj(v.any(), self.pc), self.pc, E)
        for fr in self.loops:
            v = B(tj(v.V, fr['d']), tj(v.L, fr['d']), E)
        self.ret = v if self.ret is None else join(self.ret, v)
        return CLEAN

    def e_YieldFrom(self, e):
        v = self.ev(e.value)
        b, L = self.iter_bits(e.value, v)
        v = B(tj(b.V, self.pc), tj(L, self.pc), E)
        self.ret = v if self.ret is None else join(self.ret, v)
        return CLEAN

    def e_Attribute(self, e):
        if e.attr in ('__class__', '__name__'):
            return B(self.clsbits(e), E, E)
        base = self.ev(e.value)
        vals = self.vals(e.value)
        sk = self.self_attr(e)
        if sk is not None and sk in self.env:
            return self.env[sk]
        insts = False
        out = None
        for v in vals:
            k = v[0]
            if k == 'I':
                insts = True
                c = v[1]
                if e.attr in ('__class__', '__name__'):
                    b = CLEAN
                else:
                    g = c.find(e.attr)
                    if g is not None and g.kind in ('prop', 'classprop'):
                        self.comm_call((id(g), c), e)
                        b = self.call_summary((id(g), c), [], {}, e)
                    elif g is not None:
                        b = CLEAN
                    else:
                        b = self.attr_bits(c, e.attr)
                out = b if out is None else join(out, b)
            elif k in ('C', 'U'):
                insts = True
                if k == 'C':
                    g = v[1].find(e.attr)
                    if g is not None and g.kind == 'classprop':
                        self.comm_call((id(g), v[1]), e)
                        b = self.call_summary((id(g), v[1]), [], {}, e)
                    else:
                        b = self.attr_bits(v[1], e.attr)
                    out = b if out is None else join(out, b)
            elif k == 'M':
                m = self.p.mods.get(v[1])
                if m is not None:
                    r = self.p.lookup(m, e.attr)
                    if isinstance(r, tuple) and r[0] == 'var':
                        kk = (r[1].name, r[2])
                        self.A.dep_glob[kk].add(self.u)
                        b = self.A.glob[kk]
                        out = b if out is None else join(out, b)
        if insts or out is not None:
            out = out or CLEAN
            if base.V:
                bv = aspect(base.V)
                out = B(tj(out.V, bv), tj(out.L, bv), out.N)
            return out
        if e.attr in ('shape', 'size', 'ndim', 'nnz'):
            return B(base.L, E, E)
        return B(base.V, base.L, E)

    def attr_bits(self, c, attr):
        k = (c, attr)
        self.A.dep_attr[k].add(self.u)
        b = self.A.attr[k]
        for x in c.mro[1:]:
            k2 = (x, attr)
            self.A.dep_attr[k2].add(self.u)
            if k2 in self.A.attr:
                b = join(b, self.A.attr[k2])
        return b

    def e_Subscript(self, e):
        base = self.ev(e.value)
        if isinstance(e.slice, ast.Slice):
            s = self.ev_slice(e.slice)
            return B(base.V, tj(base.L, s.V), E)
        k = self.ev(e.slice)
        self.edges(e)
        key = self.glob_key(e)
        if key is not None:
            self.A.dep_glob[key].add(self.u)
            d = self.A.glob[key[:2]]
            self.A.dep_glob[key[:2]].add(self.u)
            x = self.A.glob[key] if key in self.A.globkeys.get(key[:2], ()) else CLEAN
            return B(tj(d.V, x.V), tj(d.V, x.L), tj(d.V, x.N))
        insts = [v for v in self.vals(e.value) if v[0] == 'I']
        if insts:
            out = CLEAN
            for v in insts:
                g = v[1].find('__getitem__')
                if g is not None:
                    out = join(out, self.call_summary((id(g), v[1]), [k], {}, e))
            return B(tj(out.V, base.V), tj(out.L, base.V), out.N)
        if base.elts is not None and isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, int) \
                and -len(base.elts) <= e.slice.value < len(base.elts):
            return base.elts[e.slice.value]
        return B(tj(base.V, k.V), tj(base.V, k.V), E)

    # ---- calls ------------------------------------------------------------------------------------------
    def e_Call(self, e):
        fn = e.func
        # MPI
        if isinstance(fn, ast.Attribute) and (fn.attr in COLLECTIVES or fn.attr in P2P or fn.attr in
                                              ('Get_rank', 'Get_size')) and self.A.is_comm(fn, self.ctx, self.f):
            return self.mpi(e, fn.attr)
        args = []
        stars = E
        for x in e.args:
            b = self.ev(x.value if isinstance(x, ast.Starred) else x)
            if isinstance(x, ast.Starred):
                args.append(('*', b))
            else:
                args.append(('p', self.objless(b, x)))
        kws = {}
        kwstar = None
        for k in e.keywords:
            b = self.objless(self.ev(k.value), k.value)
            if k.arg is None:
                kwstar = b
            else:
                kws[k.arg] = b
        base = CLEAN
        if self.self_name is not None and (
                (isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and fn.value.id == self.self_name)
                or any(isinstance(x, ast.Name) and x.id == self.self_name for x in e.args)):
            self.flush()
        if isinstance(fn, ast.Attribute):
            base = self.ev(fn.value)
            # method lookup itself may be a property returning a callable
            self.ev_attr_comm(fn)
        elif not isinstance(fn, ast.Name):
            base = self.ev(fn)
        edges = self.a.call_edges.get((id(e), self.ctx), ())
        callees = self.a.callees.get((id(e), self.ctx), ())
        out = None
        cls_call = any(isinstance(c, ClassInfo) for c in callees)
        for g, c2 in edges:
            u = (id(g), c2)
            self.comm_call(u, e)
            isinit = g.name == '__init__' and cls_call
            r = self.call_summary(u, args, kws, e, kwstar, g)
            if isinit:
                continue
            out = r if out is None else join(out, r)
        if cls_call:
            cs = {c.orig or c for c in callees if isinstance(c, ClassInfo)}
            o = out or CLEAN
            if cs and all(isinstance(c, ClassInfo) or c.name == '__init__' for c in callees):
                return o.with_k('I:' + next(iter(cs)).qual if len(cs) == 1 else '+')
            return o
        if out is not None:
            if base.V and isinstance(fn, ast.Attribute):
                out = B(tj(out.V, base.V), tj(out.L, base.V), out.N, out.elts)
            return out
        return self.unknown_call(e, fn, base, args, kws, kwstar)

    def objs(self, e):
        """can e be a project object, or a container the points-to analysis tracks?"""
        return any(v[0] != 'X' for v in self.vals(e))

    def objless(self, b, x):
        if b.V and not self.objs(x):
            b = B(b.V, b.L, b.N, b.elts, b.k, b.vn)
            b.o = False
        return b

    def ev_attr_comm(self, fn):
        for v in self.vals(fn.value):
            if v[0] == 'I':
                g = v[1].find(fn.attr)
                if g is not None and g.kind in ('prop', 'classprop'):
                    self.comm_call((id(g), v[1]), fn)

    def unknown_call(self, e, fn, base, args, kws, kwstar):
        allv = E
        alll = E
        for t, b in args:
            allv = tj(allv, b.any())
            alll = tj(alll, b.L)
        for b in kws.values():
            allv = tj(allv, b.any())
        if kwstar is not None:
            allv = tj(allv, kwstar.V)
        if isinstance(fn, ast.Name):
            nm = fn.id
            if nm == 'len':
                if args:
                    insts = [v for v in self.vals(e.args[0]) if v[0] == 'I']
                    out = args[0][1].L
                    if insts:
                        out = aspect(args[0][1].V)
                        for v in insts:
                            g = v[1].find('__len__')
                            if g is not None:
                                out = tj(out, self.call_summary((id(g), v[1]), [], {}, e).V)
                    return B(out, E, E)
            if nm in CLEAN_BUILTINS:
                if nm == 'isinstance' and args:
                    return B(args[0][1].N, E, E)
                return CLEAN
            if nm in ('list', 'tuple', 'sorted', 'reversed', 'iter', 'dict') and e.args:
                b, L = self.iter_bits(e.args[0], args[0][1])
                return B(tj(b.V, args[0][1].V), L, E, None, nm if nm in ('list', 'tuple', 'dict') else None)
            if nm in ('list', 'tuple', 'dict', 'set') and not e.args:
                return B(E, E, E, () if nm in ('list', 'tuple') else None, nm)
            if nm in ('enumerate', 'zip'):
                return B(allv, alll, E)
            if nm == 'getattr' and args:
                return B(allv, alll, E)
            if nm in ('sum', 'max', 'min', 'any', 'all', 'abs', 'int', 'float', 'str', 'round', 'bool'):
                return B(allv, E, E, None, nm if nm in ('int', 'float', 'str', 'bool') else
                         'bool' if nm in ('any', 'all') else None)
            L = tj(alll, allv) if nm in SHAPE_FROM_VALUE else alll
            return B(allv, L, E)
        if isinstance(fn, ast.Attribute):
            nm = fn.attr
            ext = None
            for v in self.vals(fn):
                if v[0] == 'X':
                    ext = v[1]
            if ext is not None:
                if ext.startswith(RANDOM_EXT) or any(ext.startswith(x) for x in RANDOM_EXT):
                    if ext not in ('time.sleep',):
                        allv = tj(allv, frozenset([f'T:{ext} at {self.mod.rel}:{e.lineno}']))
                if ext.endswith('import_module'):
                    return CLEAN
                L = tj(alll, allv) if nm in SHAPE_FROM_VALUE else alll
                k = 'arr' if ext.startswith('numpy.') and nm in NP_ARRAY else None
                return B(allv, L, E, None, k)
            if nm in CONT_MUT:
                sl = {'append', 'add', 'extend', 'update', 'insert', 'appendleft'}
                if nm in ('append', 'appendleft', 'insert'):
                    self.mutate(fn.value, B(tj(allv, self.pc), self.pc, E))
                elif nm in ('add',):
                    self.mutate(fn.value, B(tj(allv, self.pc), tj(allv, self.pc), E))
                elif nm in ('extend', 'update'):
                    self.mutate(fn.value, B(tj(allv, self.pc), tj(alll, self.pc), E))
                elif nm in ('remove', 'discard', 'setdefault'):
                    self.mutate(fn.value, B(tj(allv, self.pc), tj(allv if nm != 'remove' else E, self.pc), E))
                else:
                    self.mutate(fn.value, B(self.pc, self.pc, E))
                if nm in ('pop', 'popleft', 'popitem', 'setdefault'):
                    return B(tj(base.V, allv), tj(base.V, allv), E)
                return CLEAN
            if nm in ('keys', 'values', 'items', 'copy'):
                return B(base.V, base.L, E)
            if nm in ('get',):
                return B(tj(base.V, tj(base.L, allv)), base.V, base.L)
            if nm in ('tolist', 'ravel', 'toarray', 'tocsr', 'tocsc', 'flatten', 'reshape', 'transpose', 'astype'):
                return B(tj(base.V, allv), base.L, E)
            return B(tj(base.V, allv), tj(base.L, alll), E)
        return B(tj(base.any(), allv), alll, E)

    def call_summary(self, u, args, kws, e, kwstar=None, g=None):
        A = self.A
        A.dep_summ[u].add(self.u)
        g = g or A.fof.get(u[0])
        s = A.summ.get(u)
        if g is None:
            return CLEAN
        if g.mod.is_legacy:
            return CLEAN
        params = g.params
        bound = params
        if g.kind in ('method', 'prop', 'setter', 'class', 'classprop') and params:
            # explicit self passing (Class.method(obj)) is rare: detected by the PTA edge context; treat as bound
            bound = params[1:]
        amap = {}
        if args is not None:
            args = [x if isinstance(x, tuple) else ('p', x) for x in args]
            i = 0
            for t, b in args:
                if t == '*':
                    for q in bound[i:]:
                        amap[q] = join(amap.get(q, CLEAN), B(b.V, b.V, E))
                    if g.vararg:
                        amap[g.vararg] = join(amap.get(g.vararg, CLEAN), B(b.V, b.L, E))
                    i = len(bound)
                elif i < len(bound):
                    amap[bound[i]] = b
                    i += 1
                elif g.vararg:
                    o = amap.get(g.vararg, CLEAN)
                    amap[g.vararg] = B(tj(o.V, b.any()), o.L, E)
            for k, b in (kws or {}).items():
                if k in bound or k in g.kwonly:
                    amap[k] = b
                elif g.kwarg:
                    o = amap.get(g.kwarg, CLEAN)
                    amap[g.kwarg] = B(tj(o.V, b.any()), o.L, E)
            if kwstar is not None:
                for q in list(bound) + g.kwonly:
                    if q not in amap:
                        amap[q] = B(kwstar.V, kwstar.V, E)
                if g.kwarg:
                    amap[g.kwarg] = join(amap.get(g.kwarg, CLEAN), kwstar)
            for q, b in amap.items():
                if b is not CLEAN:
                    A.upd(A.param, A.dep_param, (u[0], u[1], q), self.resolve(b))
        if s is None:
            return CLEAN
        # collectives inside g controlled by its parameters
        if s.cond and self.f is not None:
            for t, ev in s.cond.items():
                b = amap.get(t[1])
                if b is not None:
                    toks = bit(b, t[2])
                    if toks:
                        key = (id(e), 'argcond', t)
                        old = self.ev_out.get(key)
                        if old is not None:
                            toks = tj(toks, old.tokens)
                        self.ev_out[key] = Event(self.f, self.ctx, e, 'argcond', toks, (u, t), ev)
        return self.subst(s.ret, amap)

    def subst(self, b, amap):
        def sb(s):
            out = E
            for t in s:
                if isinstance(t, str):
                    out = tj(out, frozenset([t]))
                else:
                    x = amap.get(t[1])
                    if x is not None:
                        out = tj(out, bit(x, t[2]))
            return out
        if not (b.V or b.L or b.N or b.elts):
            return b
        return B(sb(b.V), sb(b.L), sb(b.N),
                 None if b.elts is None else tuple(self.subst(x, amap) for x in b.elts), b.k)

    # ---- MPI --------------------------------------------------------------------------------------------
    def root_of(self, e, name):
        for k in e.keywords:
            if k.arg == 'root':
                return k.value
        i = ROOTED.get(name)
        if i is not None and len(e.args) > i:
            return e.args[i]
        return None

    def mpi(self, e, name):
        if name == 'Get_rank':
            return B(frozenset([f'T:rank']), E, E)
        if name == 'Get_size':
            return CLEAN
        bs = [self.ev(x) for x in e.args]
        for k in e.keywords:
            self.ev(k.value)
        where = f'{self.mod.rel}:{e.lineno}'
        if name in P2P:
            self.ev_out.setdefault((id(e), 'p2p'), Event(self.f, self.ctx, e, 'p2p', self.cpc, name))
            t = frozenset([f'T:{name} at {where}'])
            if name in ('recv', 'sendrecv'):
                return B(t, t, E)
            if name in ('Recv',) and e.args:
                self.bufset(e.args[0], B(t, E, E))
            return CLEAN
        self.event(e, 'coll', name)
        root = self.root_of(e, name)
        if root is not None:
            rb = self.ev(root)
            if rb.V:
                self.ev_out[(id(e), 'root')] = Event(self.f, self.ctx, e, 'root', rb.V, name)
        if name in ('bcast', 'allreduce', 'allgather'):
            return B(vn=('coll', name))
        if name in COLL_ROOT:
            t = frozenset([f'T:{name} result (root only) at {where}'])
            return B(t, t, t)
        if name in COLL_VAR:
            t = frozenset([f'T:{name} result at {where}'])
            return B(t, t, E)
        if name in ('Bcast',) and e.args:
            self.bufset(e.args[0], CLEAN, replace=True)
        elif name in ('Allreduce', 'Allgather', 'Allgatherv') and len(e.args) > 1:
            self.bufset(e.args[1], CLEAN, replace=True)
        elif name in ('Reduce', 'Gather', 'Gatherv', 'Scatter', 'Scatterv', 'Alltoall') and len(e.args) > 1:
            t = frozenset([f'T:{name} buffer at {where}'])
            self.bufset(e.args[1], B(t, E, E), replace=True)
        return CLEAN

    def bufset(self, e, b, replace=False):
        if isinstance(e, (ast.List, ast.Tuple)) and e.elts:
            e = e.elts[0]
        if isinstance(e, ast.Name):
            old = self.getvar(e.id, e)
            nb = taint(B(b.V, b.L if replace else old.L, E, None, old.k), self.pc)
            nb.o = old.o
            if self.f is not None and e.id in self.f.locals:
                self.env[e.id] = nb
            else:
                self.setvar(e.id, nb)
        else:
            self.mutate(e, b)

    # ---- communication shape of a piece of code (for balanced branches) ---------------------------------
    def commseq(self, stmts):
        out = []
        for s in stmts:
            out.extend(self.seq_stmt(s))
            if isinstance(s, (ast.Return, ast.Raise, ast.Break, ast.Continue)):
                out.append((type(s).__name__,)) if False else None
                break
        return out

    def seq_stmt(self, s):
        if isinstance(s, ast.If):
            a, b = self.commseq(s.body), self.commseq(s.orelse)
            t = self.seq_of(s.test)
            if a == b:
                return t + a
            return t + [('if', ast.dump(s.test), tuple(a), tuple(b))]
        if isinstance(s, (ast.For, ast.While)):
            b = self.commseq(s.body)
            h = s.iter if isinstance(s, ast.For) else s.test
            return self.seq_of(h) + ([('loop', ast.dump(h), tuple(b))] if b else [])
        if isinstance(s, ast.With):
            out = []
            for w in s.items:
                out += self.seq_of(w.context_expr)
            return out + self.commseq(s.body)
        if isinstance(s, ast.Try):
            return self.commseq(s.body) + self.commseq(s.finalbody)
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            return []
        return self.seq_of(s)

    def seq_of(self, e):
        out = []
        todo = [e]
        nodes = []

        def rec(n):
            if isinstance(n, (ast.Lambda, ast.FunctionDef)):
                return
            for ch in ast.iter_child_nodes(n):
                rec(ch)
            nodes.append(n)
        rec(e)
        for n in nodes:
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in COLLECTIVES and \
                    self.A.is_comm(n.func, self.ctx, self.f):
                r = self.root_of(n, n.func.attr)
                out.append((n.func.attr, self.rootrepr(r)))
            else:
                us = sorted({self.A.fof[id(g)].qual for g, c2 in self.A.edges_of(n, self.ctx)
                             if (id(g), c2) in self.A.coll})
                if us:
                    out.append(('call', tuple(us)))
        return out

    def rootrepr(self, r):
        if r is None:
            return '0'
        s = ast.unparse(r)
        return {'MASTER_RANK': '0'}.get(s, s)


def map_update(s):
    """for k in D: ... D[k] = ...  where no iteration reads D after it stored: D read in the loop is D before it"""
    if not (isinstance(s.iter, ast.Name) and isinstance(s.target, ast.Name)):
        return None
    d, k = s.iter.id, s.target.id

    def isdk(n):
        return isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and n.value.id == d and \
            isinstance(n.slice, ast.Name) and n.slice.id == k

    def loads(n):
        return any(isinstance(x, ast.Name) and x.id == d for x in ast.walk(n))

    def plain(n):
        """every mention of D in n is a read D[k]"""
        ok = {id(x.value) for x in ast.walk(n) if isdk(x) and isinstance(x.ctx, ast.Load)}
        return all(id(x) in ok for x in ast.walk(n) if isinstance(x, ast.Name) and x.id == d)

    def scan(body, stored):
        for x in body:
            if isinstance(x, ast.If):
                if loads(x.test) and (stored or not plain(x.test)):
                    return None
                a, b = scan(x.body, stored), scan(x.orelse, stored)
                if a is None or b is None:
                    return None
                stored = a or b
            elif isinstance(x, ast.Assign) and len(x.targets) == 1 and isdk(x.targets[0]):
                if loads(x.value) and (stored or not plain(x.value)):
                    return None
                stored = True
            elif any(isinstance(n, ast.Name) and n.id in (d, k) and isinstance(n.ctx, ast.Store)
                     for n in ast.walk(x)):
                return None
            elif loads(x) and (stored or not plain(x)):
                return None
        return stored
    return d if scan(s.body, False) else None


def terminates(body):
    """block always leaves the enclosing block"""
    for s in body:
        if isinstance(s, (ast.Return, ast.Raise, ast.Break, ast.Continue)):
            return True
        if isinstance(s, ast.If) and s.orelse and terminates(s.body) and terminates(s.orelse):
            return True
    return False


def leaves(body):
    """kinds of normal (non raising) exits found in a block, not counting those of inner loops/functions"""
    out = set()

    def rec(b, inloop):
        for s in b:
            if isinstance(s, ast.Return):
                out.add('return')
            elif isinstance(s, ast.Break) and not inloop:
                out.add('break')
            elif isinstance(s, ast.Continue) and not inloop:
                out.add('continue')
            elif isinstance(s, (ast.For, ast.While)):
                rec(s.body, True)
                rec(s.orelse, inloop)
            elif isinstance(s, ast.If):
                rec(s.body, inloop)
                rec(s.orelse, inloop)
            elif isinstance(s, ast.With):
                rec(s.body, inloop)
            elif isinstance(s, ast.Try):
                rec(s.body, inloop)
                for h in s.handlers:
                    rec(h.body, inloop)
                rec(s.orelse, inloop)
                rec(s.finalbody, inloop)
    rec(body, False)
    return out


def has_break(body):
    return 'break' in leaves(body)
