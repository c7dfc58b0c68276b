from libc.math import fabs, isfinite
from libc.stdint import int16_t, int32_t, int64_t, uint8_t, uint16_t, uint32_t, uint64_t
from libc.stdlib import calloc, free, malloc, realloc
from libc.string import memcpy
from sonolus.backend._opt.ir import BlockInfo, Edge, EDGE_COND_NONE, EDGE_COND_VALUE, FLAG_CONST_IS_INT, FLAG_MUST_FOLD, FLAG_PINNED, FLAG_PURE, FLAG_SIDE_EFFECT, FLAG_STMT_ROOT, Func, Instr, PLACE_DYNAMIC_BLOCK, PLACE_REAL_BLOCK, PLACE_RUNTIME_CONST, PLACE_TEMP_ARRAY, PLACE_TEMP_SCALAR, PLACE_TEMP_SIZE0, PLACE_WRITABLE, PlaceInfo, TempInfo
from sonolus.backend._opt._ops_gen import OP_Add, OP_DecrementPost, OP_Divide, OP_Equal, OP_If, OP_IncrementPost, OP_Mod, OP_Multiply, OP_Negate, OP_Power, OP_Random, OP_RandomInteger, OP_Rem, OP_RUNTIME_COUNT, OP_SetAdd, OP_SetDivide, OP_SetMod, OP_SetMultiply, OP_SetPower, OP_SetRem, OP_SetSubtract, OP_Subtract, OPX_CONST, OPX_GET, OPX_PHI, OPX_SET, OPX_UNDEF
from sonolus.backend._opt.analysis import Dominators, Liveness, LoopForest, bs_get, bs_set, compute_dominators, compute_liveness, compute_loops
from sonolus.backend._opt.midend import build_ssa, cfg_cleanup, midend_round
from sonolus.backend._opt.ir import marshal_in as marshal_in, to_basic_blocks as to_basic_blocks
from sonolus.backend._opt.midend import _seq_parallel_copies as _seq_parallel_copies

def _sonolus_ctz64(x):
    ...
_INTERF_MATRIX_CAP: 'int64_t' = __cast__('int64_t', 2147483647)
_CASE_MAG_LIMIT: 'double' = 16777216.0
_CASE_SPAN_LIMIT: 'int64_t' = __cast__('int64_t', 16777216)
_MAX_FOLD_DEPTH: 'int32_t' = 1000

def _int32_block_const(d):
    return isfinite(d) and -2147483648.0 <= d <= 2147483647.0 and (d == __cast__('double', __cast__('int64_t', d)))

def _bump(func, temp_offset):
    index = 0
    t: 'int32_t'
    size: 'int32_t'
    for t in range(func.n_temps):
        size = func.temps[t].size
        if size == 0:
            continue
        if size > TEMP_SIZE - index:
            raise ValueError('Temporary memory limit exceeded')
        temp_offset[t] = index
        index += size

def _bump_fits(func):
    total = 0
    t: 'int32_t'
    size: 'int32_t'
    for t in range(func.n_temps):
        size = func.temps[t].size
        if size > 0:
            total += size
            if total > TEMP_SIZE:
                return False
    return total <= TEMP_SIZE

def _pack(func, L, temp_offset):
    n_temps = func.n_temps
    nw = L.n_words
    ni = func.n_instrs
    instrs = func.instrs
    i: 'int32_t'
    t: 'int32_t'
    u: 'int32_t'
    w: 'int32_t'
    rs: 'int32_t'
    size: 'int32_t'
    offset: 'int32_t'
    us: 'int32_t'
    ue: 'int32_t'
    k: 'int32_t'
    p: 'int32_t'
    hi: 'int32_t'
    run: 'int32_t'
    ndeg: 'int32_t'
    rl: 'uint64_t*'
    rowp: 'uint64_t*'
    word: 'uint64_t'
    if n_temps == 0:
        return
    if __cast__('int64_t', n_temps) * __cast__('int64_t', nw) > _INTERF_MATRIX_CAP:
        raise ValueError('Temporary interference graph too large')
    nonzero = __cast__('uint64_t*', calloc(__cast__('unsigned size_t', nw if nw > 0 else 1), __sizeof__(uint64_t)))
    adj = __cast__('uint64_t*', calloc(__cast__('unsigned size_t', n_temps) * __cast__('unsigned size_t', nw) if nw > 0 else 1, __sizeof__(uint64_t)))
    work = __cast__('uint64_t*', calloc(__cast__('unsigned size_t', nw if nw > 0 else 1), __sizeof__(uint64_t)))
    cover = __cast__('uint8_t*', calloc(__cast__('unsigned size_t', TEMP_SIZE), __sizeof__(uint8_t)))
    nb_us = __cast__('int32_t*', malloc(__cast__('unsigned size_t', n_temps) * __sizeof__(int32_t)))
    nb_ue = __cast__('int32_t*', malloc(__cast__('unsigned size_t', n_temps) * __sizeof__(int32_t)))
    if nonzero == NULL or adj == NULL or work == NULL or (cover == NULL) or (nb_us == NULL) or (nb_ue == NULL):
        free(nonzero)
        free(adj)
        free(work)
        free(cover)
        free(nb_us)
        free(nb_ue)
        raise MemoryError()
    try:
        for t in range(n_temps):
            if func.temps[t].size > 0:
                bs_set(nonzero, t)
        for i in range(ni):
            if instrs[i].op != OPX_SET:
                continue
            rs = L.root_slot[i]
            if rs < 0:
                continue
            rl = __addr__(L.root_live[__cast__('int64_t', rs) * nw])
            for w in range(nw):
                work[w] = rl[w] & nonzero[w]
            for t in range(n_temps):
                if bs_get(work, t):
                    for w in range(nw):
                        adj[t * nw + w] |= work[w]
        order = sorted((t for t in range(n_temps) if func.temps[t].size > 0), key=lambda x: (-func.temps[x].size, x))
        for t in order:
            size = func.temps[t].size
            ndeg = 0
            hi = 0
            rowp = __addr__(adj[t * nw])
            for w in range(nw):
                word = rowp[w]
                while word != 0:
                    u = (w << 6) + _sonolus_ctz64(word)
                    word &= word - 1
                    if u == t:
                        continue
                    if temp_offset[u] < 0:
                        continue
                    us = temp_offset[u]
                    ue = us + func.temps[u].size
                    nb_us[ndeg] = us
                    nb_ue[ndeg] = ue
                    ndeg += 1
                    for p in range(us, ue):
                        cover[p] = 1
                    if ue > hi:
                        hi = ue
            offset = -1
            run = 0
            for p in range(TEMP_SIZE):
                if p < hi and cover[p]:
                    run = 0
                else:
                    run += 1
                    if run >= size:
                        offset = p - size + 1
                        break
            for k in range(ndeg):
                for p in range(nb_us[k], nb_ue[k]):
                    cover[p] = 0
            if offset < 0 or offset + size > TEMP_SIZE:
                raise ValueError('Temporary memory limit exceeded')
            temp_offset[t] = offset
    finally:
        free(nonzero)
        free(adj)
        free(work)
        free(cover)
        free(nb_us)
        free(nb_ue)

def _dead_store_elim(func, L):
    ni = func.n_instrs
    nw = L.n_words
    instrs = func.instrs
    args = func.args
    places = func.places
    i: 'int32_t'
    rs: 'int32_t'
    pid: 'int32_t'
    vid: 'int32_t'
    t: 'int32_t'
    kind: 'uint8_t'
    rl: 'uint64_t*'
    disj1: 'bint'
    disj2: 'bint'
    is_live: 'bint'
    for i in range(ni):
        if instrs[i].op != OPX_SET:
            continue
        if not instrs[i].flags & FLAG_STMT_ROOT:
            continue
        rs = L.root_slot[i]
        rl = __addr__(L.root_live[__cast__('int64_t', rs) * nw])
        pid = instrs[i].aux
        vid = __cast__('int32_t', args[instrs[i].arg_start])
        kind = places[pid].kind
        disj1 = False
        if kind == PLACE_TEMP_SCALAR or kind == PLACE_TEMP_ARRAY or kind == PLACE_TEMP_SIZE0:
            t = places[pid].block_ref
            if not bs_get(rl, t):
                disj1 = True
        disj2 = instrs[vid].op == OPX_GET and instrs[vid].aux == pid
        is_live = not (disj1 or disj2)
        if is_live:
            continue
        instrs[i].flags &= __cast__('uint8_t', ~FLAG_STMT_ROOT)
        if instrs[vid].flags & FLAG_SIDE_EFFECT:
            instrs[vid].flags |= FLAG_STMT_ROOT

def _rewrite_places(func, temp_offset):
    places = func.places
    pid: 'int32_t'
    t: 'int32_t'
    kind: 'uint8_t'
    new_off: 'int64_t'
    for pid in range(func.n_places):
        kind = places[pid].kind
        if kind == PLACE_TEMP_SIZE0:
            places[pid].kind = PLACE_REAL_BLOCK
            places[pid].flags = 0
            places[pid].block_ref = TEMP_BLOCK
            places[pid].offset = -1
        elif kind == PLACE_TEMP_SCALAR or kind == PLACE_TEMP_ARRAY:
            t = places[pid].block_ref
            new_off = __cast__('int64_t', temp_offset[t]) + __cast__('int64_t', places[pid].offset)
            if new_off < 0 or new_off >= TEMP_SIZE:
                raise ValueError('Temp place offset out of range (out-of-bounds constant index?)')
            places[pid].offset = __cast__('int32_t', new_off)
            places[pid].kind = PLACE_REAL_BLOCK
            places[pid].flags = 0
            places[pid].block_ref = TEMP_BLOCK

def allocate_func(func, strategy):
    n_temps = func.n_temps
    temp_offset = __cast__('int32_t*', malloc(__cast__('unsigned size_t', n_temps if n_temps > 0 else 1) * __sizeof__(int32_t)))
    if temp_offset == NULL:
        raise MemoryError()
    t: 'int32_t'
    for t in range(n_temps):
        temp_offset[t] = -2
    L: 'Liveness'
    try:
        if strategy == ALLOC_BUMP:
            _bump(func, temp_offset)
        elif strategy == ALLOC_PACKING:
            L = compute_liveness(func)
            _pack(func, L, temp_offset)
            _dead_store_elim(func, L)
        elif strategy == ALLOC_TRY_BUMP:
            if _bump_fits(func):
                _bump(func, temp_offset)
            else:
                L = compute_liveness(func)
                _pack(func, L, temp_offset)
                _dead_store_elim(func, L)
        else:
            raise ValueError(f'Unknown allocation strategy code {strategy}')
        _rewrite_places(func, temp_offset)
    finally:
        free(temp_offset)

def _fused_set_op(binop):
    if binop == __cast__('uint16_t', OP_Add):
        return OP_SetAdd
    if binop == __cast__('uint16_t', OP_Subtract):
        return OP_SetSubtract
    if binop == __cast__('uint16_t', OP_Multiply):
        return OP_SetMultiply
    if binop == __cast__('uint16_t', OP_Divide):
        return OP_SetDivide
    if binop == __cast__('uint16_t', OP_Mod):
        return OP_SetMod
    if binop == __cast__('uint16_t', OP_Rem):
        return OP_SetRem
    if binop == __cast__('uint16_t', OP_Power):
        return OP_SetPower
    return -1

def _values_equal(func, v1, v2):
    if v1 == v2:
        return True
    o1 = func.instrs[v1].op
    o2 = func.instrs[v2].op
    if o1 != o2:
        return False
    if o1 == __cast__('uint16_t', OPX_CONST):
        return func.consts[func.instrs[v1].aux] == func.consts[func.instrs[v2].aux]
    if o1 == __cast__('uint16_t', OPX_GET):
        return _places_equal(func, func.instrs[v1].aux, func.instrs[v2].aux)
    if not func.instrs[v1].flags & FLAG_PURE:
        return False
    n1 = func.instrs[v1].nargs
    if n1 != func.instrs[v2].nargs:
        return False
    s1 = func.instrs[v1].arg_start
    s2 = func.instrs[v2].arg_start
    k: 'int32_t'
    for k in range(n1):
        if not _values_equal(func, __cast__('int32_t', func.args[s1 + k]), __cast__('int32_t', func.args[s2 + k])):
            return False
    return True

def _places_equal(func, p1, p2):
    if p1 == p2:
        return True
    places = func.places
    kind = places[p1].kind
    if kind != places[p2].kind:
        return False
    if places[p1].offset != places[p2].offset:
        return False
    iv1 = places[p1].index_val
    iv2 = places[p2].index_val
    if (iv1 < 0) != (iv2 < 0):
        return False
    if iv1 >= 0 and (not _values_equal(func, iv1, iv2)):
        return False
    if kind == PLACE_DYNAMIC_BLOCK:
        return _values_equal(func, places[p1].block_ref, places[p2].block_ref)
    return places[p1].block_ref == places[p2].block_ref

def _subtree_refs(func, root, target):
    if root == target:
        return True
    astart = func.instrs[root].arg_start
    nargs = func.instrs[root].nargs
    k: 'int32_t'
    a: 'int32_t'
    for k in range(nargs):
        a = __cast__('int32_t', func.args[astart + k])
        if _subtree_refs(func, a, target):
            return True
    return False

def _is_const_one(func, vid):
    return func.instrs[vid].op == __cast__('uint16_t', OPX_CONST) and func.consts[func.instrs[vid].aux] == 1.0

def _fuse_scalar(func, i):
    instrs = func.instrs
    args = func.args
    pid = instrs[i].aux
    vid = __cast__('int32_t', args[instrs[i].arg_start])
    vop = instrs[vid].op
    if instrs[vid].nargs != 2:
        return
    fused = _fused_set_op(vop)
    if fused < 0:
        return
    a0 = __cast__('int32_t', args[instrs[vid].arg_start])
    a1 = __cast__('int32_t', args[instrs[vid].arg_start + 1])
    if instrs[a0].op != __cast__('uint16_t', OPX_GET) or not _places_equal(func, instrs[a0].aux, pid):
        return
    if _subtree_refs(func, a1, a0):
        return
    if vop == __cast__('uint16_t', OP_Add) and _is_const_one(func, a1):
        instrs[i].op = __cast__('uint16_t', OP_IncrementPost)
        instrs[i].nargs = 0
    elif vop == __cast__('uint16_t', OP_Subtract) and _is_const_one(func, a1):
        instrs[i].op = __cast__('uint16_t', OP_DecrementPost)
        instrs[i].nargs = 0
    else:
        instrs[i].op = __cast__('uint16_t', fused)
        args[instrs[i].arg_start] = __cast__('uint32_t', a1)
    instrs[i].flags = __cast__('uint8_t', FLAG_SIDE_EFFECT | FLAG_PINNED | FLAG_STMT_ROOT)

def fuse_rmw(func):
    instrs = func.instrs
    ni = func.n_instrs
    i: 'int32_t'
    for i in range(ni):
        if instrs[i].op != __cast__('uint16_t', OPX_SET):
            continue
        if not instrs[i].flags & FLAG_STMT_ROOT:
            continue
        _fuse_scalar(func, i)

def _strategy_code(strategy):
    if strategy == 'bump':
        return ALLOC_BUMP
    if strategy == 'packing':
        return ALLOC_PACKING
    if strategy == 'try_bump':
        return ALLOC_TRY_BUMP
    raise ValueError(f"Unknown allocation strategy {strategy} (expected 'bump', 'packing', or 'try_bump')")

def allocate_arena(entry, mode=None, callback=None, strategy='packing'):
    code = _strategy_code(strategy)
    func = __cast__('Func', marshal_in(entry, mode, callback))
    allocate_func(func, code)
    return func

def run_allocate(entry, mode=None, callback=None, strategy='packing'):
    return to_basic_blocks(allocate_arena(entry, mode, callback, strategy))

def run_fuse_rmw(entry, mode=None, callback=None, strategy='packing'):
    code = _strategy_code(strategy)
    func = __cast__('Func', marshal_in(entry, mode, callback))
    allocate_func(func, code)
    fuse_rmw(func)
    return to_basic_blocks(func)

def _grow_temps_l(buf, cap, need):
    nc: 'int32_t'
    p: 'TempInfo*'
    if need <= cap[0]:
        return buf
    nc = cap[0] if cap[0] > 0 else 8
    while nc < need:
        nc *= 2
    p = __cast__('TempInfo*', realloc(buf, __cast__('unsigned size_t', nc) * __sizeof__(TempInfo)))
    if p == NULL:
        raise MemoryError()
    cap[0] = nc
    return p

def _grow_places_l(buf, cap, need):
    nc: 'int32_t'
    p: 'PlaceInfo*'
    if need <= cap[0]:
        return buf
    nc = cap[0] if cap[0] > 0 else 8
    while nc < need:
        nc *= 2
    p = __cast__('PlaceInfo*', realloc(buf, __cast__('unsigned size_t', nc) * __sizeof__(PlaceInfo)))
    if p == NULL:
        raise MemoryError()
    cap[0] = nc
    return p

def _add_place_l(dst, kind, flags, block_ref, index_val, offset):
    pid = dst.n_places
    dst.places = _grow_places_l(dst.places, __addr__(dst.cap_places), pid + 1)
    dst.places[pid].kind = kind
    dst.places[pid].flags = flags
    dst.places[pid].block_ref = block_ref
    dst.places[pid].index_val = index_val
    dst.places[pid].offset = offset
    dst.n_places = pid + 1
    return pid

class _Lower:
    src: 'Func'
    dst: 'Func'
    nb: 'int32_t'
    n_out: 'int32_t'
    use_count: 'list'
    use_block: 'list'
    use_pos: 'list'
    used_by_phi: 'list'
    materialize: 'list'
    drop: 'list'
    inlinable: 'list'
    value_temp: 'list'
    rtc_memo: 'list'
    tc_memo: 'list'
    se_prefix: 'int32_t*'
    incoming: 'list'
    edge_pos: 'list'
    distinct_succ: 'list'
    edge_split: 'list'
    split_edge: 'list'
    array_temp_map: 'dict'
    scalar_place: 'dict'
    undef_temp: 'int32_t'
    undef_place: 'int32_t'
    name_counter: 'int32_t'
    doms: 'Dominators'
    loops: 'LoopForest'

    def __cinit__(self, src):
        self.src = src
        self.dst = Func()
        self.se_prefix = NULL
        self.nb = src.n_blocks
        self.array_temp_map = {}
        self.scalar_place = {}
        self.undef_temp = -1
        self.undef_place = -1
        self.name_counter = 0
        ni = src.n_instrs
        self.use_count = [0] * ni
        self.use_block = [-1] * ni
        self.use_pos = [-1] * ni
        self.used_by_phi = [False] * ni
        self.materialize = [False] * ni
        self.drop = [False] * ni
        self.inlinable = [False] * ni
        self.value_temp = [-1] * ni
        self.rtc_memo = [None] * ni
        self.tc_memo = [None] * ni
        e: 'int32_t'
        self.incoming = [[] for _ in range(self.nb)]
        self.edge_pos = [0] * src.n_edges
        for e in range(src.n_edges):
            lst = __cast__('list', self.incoming[src.edges[e].dst])
            self.edge_pos[e] = len(lst)
            lst.append(e)
        ss = [set() for _ in range(self.nb)]
        for e in range(src.n_edges):
            __cast__('set', ss[src.edges[e].src]).add(src.edges[e].dst)
        self.distinct_succ = [sorted(s) for s in ss]
        self.edge_split = [-1] * src.n_edges
        self.split_edge = []
        self.doms = compute_dominators(src)
        self.loops = compute_loops(src, self.doms)

    def __dealloc__(self):
        free(self.se_prefix)

    def _rtc(self, v):
        cached = self.rtc_memo[v]
        if cached is not None:
            return __cast__('bint', cached)
        ins = __addr__(self.src.instrs[v])
        op = ins.op
        astart: 'int32_t'
        nargs: 'int32_t'
        k: 'int32_t'
        o: 'int32_t'
        oop: 'int32_t'
        r: 'bint'
        if op == OPX_CONST:
            r = True
        elif op == OPX_GET:
            r = self.src.places[ins.aux].flags & PLACE_RUNTIME_CONST != 0
        elif op < OP_RUNTIME_COUNT and ins.flags & FLAG_PURE:
            r = True
            astart = ins.arg_start
            nargs = ins.nargs
            for k in range(nargs):
                o = __cast__('int32_t', self.src.args[astart + k])
                oop = self.src.instrs[o].op
                if oop == OPX_PHI or oop == OPX_UNDEF or __cast__('bint', self.materialize[o]):
                    r = False
                    break
                if not self._rtc(o):
                    r = False
                    break
        else:
            r = False
        self.rtc_memo[v] = r
        return r

    def _operand_stable(self, o):
        op = self.src.instrs[o].op
        if op == OPX_CONST or op == OPX_UNDEF or op == OPX_PHI:
            return True
        if __cast__('bint', self.drop[o]):
            return True
        if __cast__('bint', self.materialize[o]):
            return True
        return __cast__('bint', self.inlinable[o])

    def _compute_inlinable(self, v):
        ins = __addr__(self.src.instrs[v])
        op = ins.op
        pid: 'int32_t'
        kind: 'int32_t'
        iv: 'int32_t'
        astart: 'int32_t'
        nargs: 'int32_t'
        k: 'int32_t'
        if op == OPX_CONST:
            return True
        if op == OPX_GET:
            pid = ins.aux
            kind = self.src.places[pid].kind
            if kind != PLACE_REAL_BLOCK or self.src.places[pid].flags & PLACE_WRITABLE:
                return False
            iv = self.src.places[pid].index_val
            return iv < 0 or __cast__('bint', self._operand_stable(iv))
        if op < OP_RUNTIME_COUNT and ins.flags & FLAG_PURE:
            astart = ins.arg_start
            nargs = ins.nargs
            for k in range(nargs):
                if not __cast__('bint', self._operand_stable(__cast__('int32_t', self.src.args[astart + k]))):
                    return False
            return True
        return False

    def _op_cost(self, o):
        op = self.src.instrs[o].op
        if op == OPX_CONST:
            return 1
        if op == OPX_UNDEF or op == OPX_PHI:
            return 3
        if __cast__('bint', self.materialize[o]):
            return 3
        return self._tree_cost(o)

    def _tree_cost(self, v):
        cached = self.tc_memo[v]
        if cached is not None:
            return __cast__('int32_t', cached)
        r: 'int32_t'
        if self._rtc(v):
            self.tc_memo[v] = 1
            return 1
        ins = __addr__(self.src.instrs[v])
        op = ins.op
        pid: 'int32_t'
        kind: 'int32_t'
        iv: 'int32_t'
        astart: 'int32_t'
        nargs: 'int32_t'
        k: 'int32_t'
        if op == OPX_CONST:
            r = 1
        elif op == OPX_GET:
            pid = ins.aux
            kind = self.src.places[pid].kind
            if kind == PLACE_DYNAMIC_BLOCK:
                r = 1 + self._op_cost(self.src.places[pid].block_ref)
            else:
                r = 2
            iv = self.src.places[pid].index_val
            if iv < 0:
                r += 1
            else:
                r += self._op_cost(iv)
        elif op < OP_RUNTIME_COUNT and ins.flags & FLAG_PURE:
            r = 1
            astart = ins.arg_start
            nargs = ins.nargs
            for k in range(nargs):
                r += self._op_cost(__cast__('int32_t', self.src.args[astart + k]))
        else:
            r = 3
        self.tc_memo[v] = r
        return r

    def _no_effect_between(self, v, upos):
        instrs = self.src.instrs
        b = instrs[v].block
        lo = v + 1
        hi: 'int32_t'
        if upos == -2:
            hi = self.src.blocks[b].instr_start + self.src.blocks[b].instr_count
        elif upos >= 0:
            hi = upos
        else:
            return False
        return self.se_prefix[hi] - self.se_prefix[lo] == 0

    def _record_use(self, v, ublock, upos, is_phi):
        self.use_count[v] = __cast__('int32_t', self.use_count[v]) + 1
        self.use_block[v] = ublock
        self.use_pos[v] = upos
        if is_phi:
            self.used_by_phi[v] = True

    def _analyze(self):
        src = self.src
        i: 'int32_t'
        b: 'int32_t'
        op: 'int32_t'
        k: 'int32_t'
        astart: 'int32_t'
        nargs: 'int32_t'
        e: 'int32_t'
        pid: 'int32_t'
        tv: 'int32_t'
        uc: 'int32_t'
        iv: 'int32_t'
        depth: 'int32_t'
        best: 'int32_t'
        od: 'int32_t'
        fold_depth: 'list'
        side: 'bint'
        ih: 'bint'
        single: 'bint'
        opk: 'bint'
        ni = src.n_instrs
        self.se_prefix = __cast__('int32_t*', malloc(__cast__('unsigned size_t', ni + 1) * __sizeof__(int32_t)))
        if self.se_prefix == NULL:
            raise MemoryError()
        self.se_prefix[0] = 0
        for i in range(ni):
            self.se_prefix[i + 1] = self.se_prefix[i] + (1 if src.instrs[i].flags & FLAG_SIDE_EFFECT else 0)
        for i in range(src.n_instrs):
            op = src.instrs[i].op
            b = src.instrs[i].block
            if op == OPX_PHI:
                astart = src.instrs[i].arg_start
                for k in range(src.instrs[i].nargs):
                    e = __cast__('int32_t', __cast__('list', self.incoming[b])[k])
                    self._record_use(__cast__('int32_t', src.args[astart + k]), src.edges[e].src, -3, True)
                continue
            if op == OPX_UNDEF or op == OPX_CONST:
                continue
            astart = src.instrs[i].arg_start
            nargs = src.instrs[i].nargs
            for k in range(nargs):
                self._record_use(__cast__('int32_t', src.args[astart + k]), b, i, False)
            if op == OPX_GET or op == OPX_SET:
                pid = src.instrs[i].aux
                if src.places[pid].kind == PLACE_DYNAMIC_BLOCK:
                    self._record_use(src.places[pid].block_ref, b, i, False)
                if src.places[pid].index_val >= 0:
                    self._record_use(src.places[pid].index_val, b, i, False)
        for b in range(self.nb):
            if src.blocks[b].test_val >= 0:
                self._record_use(src.blocks[b].test_val, b, -2, False)
        undef_set = src._ssa_undef if src._ssa_undef is not None else set()
        for i in undef_set:
            op = src.instrs[i].op
            if op != OPX_PHI and op != OPX_CONST and (op != OPX_UNDEF) and (not src.instrs[i].flags & FLAG_STMT_ROOT):
                self.materialize[i] = True
        fold_depth = [1] * ni
        for i in range(src.n_instrs):
            op = src.instrs[i].op
            if op == OPX_PHI or op == OPX_CONST or op == OPX_UNDEF:
                continue
            if src.instrs[i].flags & FLAG_STMT_ROOT:
                continue
            if __cast__('bint', self.materialize[i]):
                continue
            best = 0
            astart = src.instrs[i].arg_start
            nargs = src.instrs[i].nargs
            for k in range(nargs):
                od = __cast__('int32_t', fold_depth[__cast__('int32_t', src.args[astart + k])])
                if od > best:
                    best = od
            if op == OPX_GET:
                pid = src.instrs[i].aux
                if src.places[pid].kind == PLACE_DYNAMIC_BLOCK:
                    od = __cast__('int32_t', fold_depth[src.places[pid].block_ref])
                    if od > best:
                        best = od
                iv = src.places[pid].index_val
                if iv >= 0:
                    od = __cast__('int32_t', fold_depth[iv])
                    if od > best:
                        best = od
            depth = best + 1
            if src.instrs[i].flags & FLAG_MUST_FOLD:
                assert __cast__('int32_t', self.use_count[i]) == 1, 'FLAG_MUST_FOLD value is not single-use (if-conversion invariant broken)'
                self.inlinable[i] = self._compute_inlinable(i)
                self.materialize[i] = False
                self.drop[i] = False
                fold_depth[i] = depth
                continue
            uc = __cast__('int32_t', self.use_count[i])
            side = src.instrs[i].flags & FLAG_SIDE_EFFECT != 0
            if uc == 0 and (not side):
                self.drop[i] = True
                continue
            self.inlinable[i] = self._compute_inlinable(i)
            if side:
                self.materialize[i] = True
                continue
            if depth > _MAX_FOLD_DEPTH:
                self.materialize[i] = True
                continue
            if self._rtc(i):
                self.materialize[i] = False
                fold_depth[i] = depth
                continue
            if __cast__('bint', self.used_by_phi[i]):
                self.materialize[i] = True
                continue
            ih = __cast__('bint', self.inlinable[i])
            single = uc == 1
            if ih:
                if single:
                    self.materialize[i] = self.loops.crosses_loop(src.instrs[i].block, __cast__('int32_t', self.use_block[i]))
                else:
                    self.materialize[i] = not self._tree_cost(i) < 4
            else:
                opk = op == OPX_GET or src.instrs[i].flags & FLAG_PURE != 0
                if single and opk and (__cast__('int32_t', self.use_block[i]) == src.instrs[i].block) and self._no_effect_between(i, __cast__('int32_t', self.use_pos[i])):
                    self.materialize[i] = False
                else:
                    self.materialize[i] = True
            if not __cast__('bint', self.materialize[i]):
                fold_depth[i] = depth

    def _new_temp(self, size):
        dst = self.dst
        tid = dst.n_temps
        dst.temps = _grow_temps_l(dst.temps, __addr__(dst.cap_temps), tid + 1)
        name_id = len(dst.names)
        dst.names.append(f's{self.name_counter}')
        self.name_counter += 1
        dst.temps[tid].name_id = name_id
        dst.temps[tid].size = size
        dst.n_temps = tid + 1
        return tid

    def _scalar_place_of(self, temp):
        cached = self.scalar_place.get(temp)
        if cached is not None:
            return __cast__('int32_t', cached)
        pid = _add_place_l(self.dst, PLACE_TEMP_SCALAR, PLACE_WRITABLE, temp, -1, 0)
        self.scalar_place[temp] = pid
        return pid

    def _get_undef_place(self):
        if self.undef_place < 0:
            self.undef_temp = self._new_temp(1)
            self.undef_place = self._scalar_place_of(self.undef_temp)
        return self.undef_place

    def _map_array_temp(self, old):
        cached = self.array_temp_map.get(old)
        if cached is not None:
            return __cast__('int32_t', cached)
        dst = self.dst
        tid = dst.n_temps
        dst.temps = _grow_temps_l(dst.temps, __addr__(dst.cap_temps), tid + 1)
        name_id = len(dst.names)
        dst.names.append(self.src.names[self.src.temps[old].name_id])
        dst.temps[tid].name_id = name_id
        dst.temps[tid].size = self.src.temps[old].size
        dst.n_temps = tid + 1
        self.array_temp_map[old] = tid
        return tid

    def _new_place(self, src_pid, block):
        src = self.src
        kind = src.places[src_pid].kind
        flags = src.places[src_pid].flags
        br = src.places[src_pid].block_ref
        iv = src.places[src_pid].index_val
        off = src.places[src_pid].offset
        if kind == PLACE_TEMP_ARRAY or kind == PLACE_TEMP_SIZE0:
            br = self._map_array_temp(br)
        elif kind == PLACE_DYNAMIC_BLOCK:
            if src.instrs[br].op == OPX_CONST and _int32_block_const(src.consts[src.instrs[br].aux]):
                kind = PLACE_REAL_BLOCK
                flags = 0
                br = __cast__('int32_t', __cast__('int64_t', src.consts[src.instrs[br].aux]))
            else:
                br = self._emit_ref(br, block)
        if iv >= 0:
            iv = self._emit_ref(iv, block)
        return _add_place_l(self.dst, __cast__('uint8_t', kind), __cast__('uint8_t', flags), br, iv, off)

    def _emit_ref(self, v, block):
        src = self.src
        op = src.instrs[v].op
        if op == OPX_CONST:
            return self.dst._emit(OPX_CONST, src.instrs[v].flags, block, src.instrs[v].aux, [])
        if op == OPX_UNDEF:
            return self.dst._emit(OPX_GET, FLAG_PINNED, block, self._get_undef_place(), [])
        if op == OPX_PHI or __cast__('bint', self.materialize[v]):
            return self.dst._emit(OPX_GET, FLAG_PINNED, block, self._scalar_place_of(__cast__('int32_t', self.value_temp[v])), [])
        return self._emit_tree(v, block)

    def _emit_tree(self, v, block):
        src = self.src
        op = src.instrs[v].op
        astart: 'int32_t'
        nargs: 'int32_t'
        k: 'int32_t'
        pid: 'int32_t'
        args: 'list'
        if op == OPX_GET:
            pid = self._new_place(src.instrs[v].aux, block)
            return self.dst._emit(OPX_GET, src.instrs[v].flags, block, pid, [])
        astart = src.instrs[v].arg_start
        nargs = src.instrs[v].nargs
        args = [self._emit_ref(__cast__('int32_t', src.args[astart + k]), block) for k in range(nargs)]
        return self._emit_op(op, src.instrs[v].flags, args, block)

    def _is_dst_const(self, a, val):
        dst = self.dst
        if dst.instrs[a].op != OPX_CONST:
            return False
        return dst.consts[dst.instrs[a].aux] == val

    def _dst_const(self, val, block):
        cid = self.dst._intern_const(val)
        return self.dst._emit(OPX_CONST, FLAG_PURE | FLAG_CONST_IS_INT, block, cid, [])

    def _emit_op(self, op, flags, args, block):
        dst = self.dst
        a0: 'int32_t'
        k: 'int32_t'
        na: 'int32_t'
        rest: 'list'
        if op == OP_Add or op == OP_Multiply or op == OP_Mod or (op == OP_Rem):
            if len(args) > 0 and dst.instrs[__cast__('int32_t', args[0])].op == op:
                a0 = __cast__('int32_t', args[0])
                na = dst.instrs[a0].nargs
                args = [__cast__('int32_t', dst.args[dst.instrs[a0].arg_start + k]) for k in range(na)] + args[1:]
        if op == OP_Add:
            args = [a for a in args if not self._is_dst_const(__cast__('int32_t', a), 0.0)]
            if len(args) == 1:
                return __cast__('int32_t', args[0])
            if len(args) == 0:
                return self._dst_const(0.0, block)
        elif op == OP_Subtract:
            rest = [a for a in args[1:] if not self._is_dst_const(__cast__('int32_t', a), 0.0)]
            args = [args[0]] + rest
            if len(args) == 1:
                return __cast__('int32_t', args[0])
            if len(args) == 2 and self._is_dst_const(__cast__('int32_t', args[0]), 0.0):
                return self._emit_op(OP_Negate, FLAG_PURE, [args[1]], block)
        elif op == OP_Multiply:
            args = [a for a in args if not self._is_dst_const(__cast__('int32_t', a), 1.0)]
            if len(args) == 1:
                return __cast__('int32_t', args[0])
            if len(args) == 0:
                return self._dst_const(1.0, block)
        elif op == OP_Divide:
            rest = [a for a in args[1:] if not self._is_dst_const(__cast__('int32_t', a), 1.0)]
            args = [args[0]] + rest
            if len(args) == 1:
                return __cast__('int32_t', args[0])
        return self.dst._emit(__cast__('uint16_t', op), __cast__('uint8_t', flags), block, -1, args)

    def _emit_tree_root(self, v, block):
        src = self.src
        astart = src.instrs[v].arg_start
        nargs = src.instrs[v].nargs
        k: 'int32_t'
        args = [self._emit_ref(__cast__('int32_t', src.args[astart + k]), block) for k in range(nargs)]
        r = self.dst._emit(src.instrs[v].op, src.instrs[v].flags, block, -1, args)
        self.dst.instrs[r].flags = __cast__('uint8_t', self.dst.instrs[r].flags | FLAG_STMT_ROOT)

    def _make_cycle_temp(self):
        return self._new_temp(1)

    def _emit_copies(self, edge, block):
        src = self.src
        d = src.edges[edge].dst
        k = __cast__('int32_t', self.edge_pos[edge])
        pstart = src.blocks[d].phi_start
        pcount = src.blocks[d].phi_count
        pi: 'int32_t'
        operand: 'int32_t'
        opnd_op: 'int32_t'
        dtemp: 'int32_t'
        ref: 'int32_t'
        dplace: 'int32_t'
        copies = []
        for pi in range(pstart, pstart + pcount):
            if __cast__('int32_t', self.use_count[pi]) == 0:
                continue
            operand = __cast__('int32_t', src.args[src.instrs[pi].arg_start + k])
            opnd_op = src.instrs[operand].op
            if opnd_op == OPX_CONST:
                skey = ('c', src.instrs[operand].aux, __cast__('int32_t', src.instrs[operand].flags))
            elif opnd_op == OPX_UNDEF:
                skey = ('u',)
            elif self._rtc(operand) and (not __cast__('bint', self.materialize[operand])):
                skey = ('t', operand)
            else:
                skey = __cast__('int32_t', self.value_temp[operand])
            dtemp = __cast__('int32_t', self.value_temp[pi])
            copies.append((dtemp, skey))
        seq = _seq_parallel_copies(copies, self._make_cycle_temp)
        for dtemp, skey in seq:
            dplace = self._scalar_place_of(__cast__('int32_t', dtemp))
            if isinstance(skey, tuple):
                if skey[0] == 'c':
                    ref = self.dst._emit(OPX_CONST, __cast__('int32_t', skey[2]), block, __cast__('int32_t', skey[1]), [])
                elif skey[0] == 'u':
                    ref = self.dst._emit(OPX_GET, FLAG_PINNED, block, self._get_undef_place(), [])
                else:
                    ref = self._emit_tree(__cast__('int32_t', skey[1]), block)
            else:
                ref = self.dst._emit(OPX_GET, FLAG_PINNED, block, self._scalar_place_of(__cast__('int32_t', skey)), [])
            self.dst._emit(OPX_SET, FLAG_SIDE_EFFECT | FLAG_PINNED | FLAG_STMT_ROOT, block, dplace, [ref])

    def _plan(self):
        src = self.src
        i: 'int32_t'
        op: 'int32_t'
        b: 'int32_t'
        e: 'int32_t'
        d: 'int32_t'
        for i in range(src.n_instrs):
            op = src.instrs[i].op
            if op == OPX_PHI:
                if __cast__('int32_t', self.use_count[i]) > 0:
                    self.value_temp[i] = self._new_temp(1)
            elif op == OPX_CONST or op == OPX_UNDEF:
                continue
            elif src.instrs[i].flags & FLAG_STMT_ROOT:
                continue
            elif __cast__('bint', self.materialize[i]):
                self.value_temp[i] = self._new_temp(1)
        self.n_out = self.nb
        for b in range(src.n_blocks):
            for e in range(src.blocks[b].edge_start, src.blocks[b].edge_start + src.blocks[b].edge_count):
                d = src.edges[e].dst
                if src.blocks[d].phi_count > 0 and (len(__cast__('list', self.distinct_succ[b])) > 1 or d == b or src.blocks[b].test_val >= 0):
                    self.edge_split[e] = self.n_out
                    self.split_edge.append(e)
                    self.n_out += 1

    def _first_edge(self, b, d):
        e: 'int32_t'
        for e in range(self.src.blocks[b].edge_start, self.src.blocks[b].edge_start + self.src.blocks[b].edge_count):
            if self.src.edges[e].dst == d:
                return e
        return -1

    def _edge_cond(self, e):
        if self.src.edges[e].cond_kind == EDGE_COND_NONE:
            return None
        if self.src.edges[e].cond_is_int:
            return int(self.src.edges[e].cond)
        return float(self.src.edges[e].cond)

    def build(self):
        src = self.src
        dst = self.dst
        self._analyze()
        self._plan()
        if src.n_consts > 0:
            dst.consts = __cast__('double*', malloc(__cast__('unsigned size_t', src.n_consts) * __sizeof__('double')))
            if dst.consts == NULL:
                raise MemoryError()
            memcpy(dst.consts, src.consts, __cast__('unsigned size_t', src.n_consts) * __sizeof__('double'))
        dst.n_consts = src.n_consts
        dst.cap_consts = src.n_consts
        dst._rebuild_const_intern()
        dst._block_enum_by_id = dict(src._block_enum_by_id)
        dst.blocks_type = src.blocks_type
        dst.callback = src.callback
        dst._block_map = dict(src._block_map)
        dst.is_ssa = False
        n_out = self.n_out
        dst.blocks = __cast__('BlockInfo*', malloc(__cast__('unsigned size_t', n_out if n_out > 0 else 1) * __sizeof__(BlockInfo)))
        if dst.blocks == NULL:
            raise MemoryError()
        dst.n_blocks = n_out
        dst.cap_blocks = n_out
        dst.entry_block = src.entry_block
        b: 'int32_t'
        i: 'int32_t'
        op: 'int32_t'
        istart: 'int32_t'
        tv: 'int32_t'
        di: 'int32_t'
        e: 'int32_t'
        si: 'int32_t'
        val: 'int32_t'
        pid: 'int32_t'
        for b in range(self.nb):
            istart = dst.n_instrs
            dst.blocks[b].instr_start = istart
            dst.blocks[b].phi_start = 0
            dst.blocks[b].phi_count = 0
            dst.blocks[b].rpo = b
            dst.blocks[b].idom = -1
            for i in range(src.blocks[b].instr_start, src.blocks[b].instr_start + src.blocks[b].instr_count):
                op = src.instrs[i].op
                if op == OPX_PHI or op == OPX_CONST or op == OPX_UNDEF:
                    continue
                if src.instrs[i].flags & FLAG_STMT_ROOT:
                    if op == OPX_SET:
                        val = self._emit_ref(__cast__('int32_t', src.args[src.instrs[i].arg_start]), b)
                        pid = self._new_place(src.instrs[i].aux, b)
                        dst._emit(OPX_SET, src.instrs[i].flags, b, pid, [val])
                    else:
                        self._emit_tree_root(i, b)
                elif __cast__('bint', self.drop[i]):
                    continue
                elif __cast__('bint', self.materialize[i]):
                    val = self._emit_tree(i, b)
                    dst._emit(OPX_SET, FLAG_SIDE_EFFECT | FLAG_PINNED | FLAG_STMT_ROOT, b, self._scalar_place_of(__cast__('int32_t', self.value_temp[i])), [val])
            if len(__cast__('list', self.distinct_succ[b])) == 1:
                di = __cast__('int32_t', __cast__('list', self.distinct_succ[b])[0])
                if di != b and src.blocks[di].phi_count > 0 and (src.blocks[b].test_val < 0):
                    e = self._first_edge(b, di)
                    self._emit_copies(e, b)
            tv = src.blocks[b].test_val
            if tv >= 0:
                dst.blocks[b].test_val = self._emit_ref(tv, b)
            else:
                dst.blocks[b].test_val = -1
            dst.blocks[b].instr_count = dst.n_instrs - istart
        for si in range(len(self.split_edge)):
            b = self.nb + si
            e = __cast__('int32_t', self.split_edge[si])
            istart = dst.n_instrs
            dst.blocks[b].instr_start = istart
            dst.blocks[b].phi_start = 0
            dst.blocks[b].phi_count = 0
            dst.blocks[b].rpo = b
            dst.blocks[b].idom = -1
            self._emit_copies(e, b)
            dst.blocks[b].test_val = -1
            dst.blocks[b].instr_count = dst.n_instrs - istart
        for b in range(self.nb):
            dst.blocks[b].edge_start = dst.n_edges
            for e in range(src.blocks[b].edge_start, src.blocks[b].edge_start + src.blocks[b].edge_count):
                if __cast__('int32_t', self.edge_split[e]) >= 0:
                    dst._push_edge(b, __cast__('int32_t', self.edge_split[e]), self._edge_cond(e))
                else:
                    dst._push_edge(b, src.edges[e].dst, self._edge_cond(e))
            dst.blocks[b].edge_count = dst.n_edges - dst.blocks[b].edge_start
        for si in range(len(self.split_edge)):
            b = self.nb + si
            e = __cast__('int32_t', self.split_edge[si])
            dst.blocks[b].edge_start = dst.n_edges
            dst._push_edge(b, src.edges[e].dst, None)
            dst.blocks[b].edge_count = dst.n_edges - dst.blocks[b].edge_start
        return dst

def _uf_find(parent, x):
    while parent[x] != x:
        parent[x] = parent[parent[x]]
        x = parent[x]
    return x

def _coalesce(func):
    L = compute_liveness(func)
    nw = L.n_words
    n_temps = func.n_temps
    ni = func.n_instrs
    instrs = func.instrs
    args = func.args
    places = func.places
    if n_temps == 0:
        return
    if __cast__('int64_t', n_temps) * __cast__('int64_t', nw) > _INTERF_MATRIX_CAP:
        raise ValueError('Temporary interference graph too large')
    scalar_mask = __cast__('uint64_t*', calloc(__cast__('unsigned size_t', nw if nw > 0 else 1), __sizeof__(uint64_t)))
    adj = __cast__('uint64_t*', calloc(__cast__('unsigned size_t', n_temps) * __cast__('unsigned size_t', nw) if nw > 0 else 1, __sizeof__(uint64_t)))
    work = __cast__('uint64_t*', calloc(__cast__('unsigned size_t', nw if nw > 0 else 1), __sizeof__(uint64_t)))
    if scalar_mask == NULL or adj == NULL or work == NULL:
        free(scalar_mask)
        free(adj)
        free(work)
        raise MemoryError()
    i: 'int32_t'
    t: 'int32_t'
    u: 'int32_t'
    w: 'int32_t'
    rs: 'int32_t'
    pid: 'int32_t'
    vid: 'int32_t'
    spid: 'int32_t'
    s: 'int32_t'
    dsc: 'int32_t'
    rl: 'uint64_t*'
    blo: 'uint64_t*'
    rowp: 'uint64_t*'
    word: 'uint64_t'
    ne = 0
    ew = 0
    d: 'int32_t'
    du: 'int32_t'
    td: 'int32_t'
    sd: 'int32_t'
    rt0: 'int32_t'
    rs0: 'int32_t'
    wroot: 'int32_t'
    wother: 'int32_t'
    pd: 'int32_t'
    rp: 'int32_t'
    kk: 'int32_t'
    Ggen = 0
    et_valid: 'bint'
    es_valid: 'bint'
    eidx = NULL
    elist = NULL
    uf_parent = NULL
    uf_size = NULL
    uf_wmin = NULL
    wgen = NULL
    xgen = NULL
    pbase = NULL
    pextra = NULL
    pmemb = NULL
    brow: 'uint64_t*'
    orow: 'uint64_t*'
    xrow: 'uint64_t*'
    mrow: 'uint64_t*'
    erow: 'uint64_t*'
    try:
        for t in range(n_temps):
            if func.temps[t].size == 1:
                bs_set(scalar_mask, t)
        for i in range(ni):
            if instrs[i].op != OPX_SET:
                continue
            if not instrs[i].flags & FLAG_STMT_ROOT:
                continue
            rs = L.root_slot[i]
            if rs < 0:
                continue
            rl = __addr__(L.root_live[__cast__('int64_t', rs) * nw])
            for w in range(nw):
                work[w] = rl[w] & scalar_mask[w]
            pid = instrs[i].aux
            if places[pid].kind == PLACE_TEMP_SCALAR:
                dsc = places[pid].block_ref
                if not bs_get(work, dsc):
                    blo = __addr__(L.live_out[__cast__('int64_t', instrs[i].block) * nw])
                    for w in range(nw):
                        work[w] |= blo[w] & scalar_mask[w]
                bs_set(work, dsc)
            for t in range(n_temps):
                if bs_get(work, t):
                    for w in range(nw):
                        adj[t * nw + w] |= work[w]
        copy_pairs = set()
        for i in range(ni):
            if instrs[i].op != OPX_SET or not instrs[i].flags & FLAG_STMT_ROOT:
                continue
            pid = instrs[i].aux
            if places[pid].kind != PLACE_TEMP_SCALAR:
                continue
            t = places[pid].block_ref
            vid = __cast__('int32_t', args[instrs[i].arg_start])
            if instrs[vid].op != OPX_GET:
                continue
            spid = instrs[vid].aux
            if places[spid].kind != PLACE_TEMP_SCALAR:
                continue
            s = places[spid].block_ref
            if s == t:
                continue
            rs = L.root_slot[i]
            if not bs_get(__addr__(L.root_live[__cast__('int64_t', rs) * nw]), t):
                continue
            copy_pairs.add((t, s) if t < s else (s, t))
        if not copy_pairs:
            return
        endpoints = set()
        for pair in copy_pairs:
            endpoints.add(pair[0])
            endpoints.add(pair[1])
        ep_sorted = sorted(endpoints)
        ne = __cast__('int32_t', len(ep_sorted))
        ew = ne + 63 >> 6
        eidx = __cast__('int32_t*', malloc(__cast__('unsigned size_t', n_temps) * __sizeof__(int32_t)))
        elist = __cast__('int32_t*', malloc(__cast__('unsigned size_t', ne) * __sizeof__(int32_t)))
        uf_parent = __cast__('int32_t*', malloc(__cast__('unsigned size_t', ne) * __sizeof__(int32_t)))
        uf_size = __cast__('int32_t*', malloc(__cast__('unsigned size_t', ne) * __sizeof__(int32_t)))
        uf_wmin = __cast__('int32_t*', malloc(__cast__('unsigned size_t', ne) * __sizeof__(int32_t)))
        wgen = __cast__('int64_t*', malloc(__cast__('unsigned size_t', ne) * __sizeof__(int64_t)))
        xgen = __cast__('int64_t*', malloc(__cast__('unsigned size_t', ne) * __sizeof__(int64_t)))
        pbase = __cast__('uint64_t*', calloc(__cast__('unsigned size_t', __cast__('int64_t', ne) * ew), __sizeof__(uint64_t)))
        pextra = __cast__('uint64_t*', calloc(__cast__('unsigned size_t', __cast__('int64_t', ne) * ew), __sizeof__(uint64_t)))
        pmemb = __cast__('uint64_t*', calloc(__cast__('unsigned size_t', __cast__('int64_t', ne) * ew), __sizeof__(uint64_t)))
        if eidx == NULL or elist == NULL or uf_parent == NULL or (uf_size == NULL) or (uf_wmin == NULL) or (wgen == NULL) or (xgen == NULL) or (pbase == NULL) or (pextra == NULL) or (pmemb == NULL):
            raise MemoryError()
        for t in range(n_temps):
            eidx[t] = -1
        for d in range(ne):
            t = __cast__('int32_t', ep_sorted[d])
            elist[d] = t
            eidx[t] = d
        for d in range(ne):
            uf_parent[d] = d
            uf_size[d] = 1
            uf_wmin[d] = elist[d]
            wgen[d] = 0
            xgen[d] = 0
            bs_set(__addr__(pmemb[__cast__('int64_t', d) * ew]), d)
            t = elist[d]
            brow = __addr__(pbase[__cast__('int64_t', d) * ew])
            rowp = __addr__(adj[__cast__('int64_t', t) * nw])
            for w in range(nw):
                word = rowp[w]
                while word != 0:
                    u = (w << 6) + _sonolus_ctz64(word)
                    word &= word - 1
                    if u != t:
                        du = eidx[u]
                        if du >= 0:
                            bs_set(brow, du)
        for pair in sorted(copy_pairs):
            t = __cast__('int32_t', pair[0])
            s = __cast__('int32_t', pair[1])
            td = eidx[t]
            sd = eidx[s]
            rt0 = _uf_find(uf_parent, td)
            if bs_get(__addr__(pbase[__cast__('int64_t', rt0) * ew]), sd) or (xgen[td] == wgen[rt0] and bs_get(__addr__(pextra[__cast__('int64_t', td) * ew]), sd)):
                continue
            rs0 = _uf_find(uf_parent, sd)
            et_valid = xgen[td] == wgen[rt0]
            es_valid = xgen[sd] == wgen[rs0]
            if rt0 == rs0:
                wroot = rt0
                wother = -1
            else:
                if uf_size[rt0] >= uf_size[rs0]:
                    wroot = rt0
                    wother = rs0
                else:
                    wroot = rs0
                    wother = rt0
                uf_parent[wother] = wroot
                uf_size[wroot] += uf_size[wother]
                if uf_wmin[wother] < uf_wmin[wroot]:
                    uf_wmin[wroot] = uf_wmin[wother]
                mrow = __addr__(pmemb[__cast__('int64_t', wroot) * ew])
                orow = __addr__(pmemb[__cast__('int64_t', wother) * ew])
                for kk in range(ew):
                    mrow[kk] |= orow[kk]
            brow = __addr__(pbase[__cast__('int64_t', wroot) * ew])
            if wother >= 0:
                orow = __addr__(pbase[__cast__('int64_t', wother) * ew])
                for kk in range(ew):
                    brow[kk] |= orow[kk]
            if et_valid:
                xrow = __addr__(pextra[__cast__('int64_t', td) * ew])
                for kk in range(ew):
                    brow[kk] |= xrow[kk]
            if es_valid:
                xrow = __addr__(pextra[__cast__('int64_t', sd) * ew])
                for kk in range(ew):
                    brow[kk] |= xrow[kk]
            Ggen += 1
            wgen[wroot] = Ggen
            mrow = __addr__(pmemb[__cast__('int64_t', wroot) * ew])
            for w in range(ew):
                word = brow[w]
                while word != 0:
                    pd = (w << 6) + _sonolus_ctz64(word)
                    word &= word - 1
                    rp = _uf_find(uf_parent, pd)
                    erow = __addr__(pextra[__cast__('int64_t', pd) * ew])
                    if xgen[pd] != wgen[rp]:
                        for kk in range(ew):
                            erow[kk] = 0
                        xgen[pd] = wgen[rp]
                    for kk in range(ew):
                        erow[kk] |= mrow[kk]
        canonical = {}
        for d in range(ne):
            wroot = _uf_find(uf_parent, d)
            if uf_size[wroot] >= 2:
                canonical[elist[d]] = uf_wmin[wroot]
        for pid in range(func.n_places):
            if places[pid].kind == PLACE_TEMP_SCALAR:
                t = places[pid].block_ref
                if t in canonical:
                    places[pid].block_ref = __cast__('int32_t', canonical[t])
        for i in range(ni):
            if instrs[i].op != OPX_SET or not instrs[i].flags & FLAG_STMT_ROOT:
                continue
            pid = instrs[i].aux
            if places[pid].kind != PLACE_TEMP_SCALAR:
                continue
            vid = __cast__('int32_t', args[instrs[i].arg_start])
            if instrs[vid].op != OPX_GET:
                continue
            spid = instrs[vid].aux
            if places[spid].kind == PLACE_TEMP_SCALAR and places[spid].block_ref == places[pid].block_ref:
                instrs[i].flags &= __cast__('uint8_t', ~FLAG_STMT_ROOT)
    finally:
        free(scalar_mask)
        free(adj)
        free(work)
        free(eidx)
        free(elist)
        free(uf_parent)
        free(uf_size)
        free(uf_wmin)
        free(wgen)
        free(xgen)
        free(pbase)
        free(pextra)
        free(pmemb)

def _gcd(a, b):
    t: 'int64_t'
    if a < 0:
        a = -a
    if b < 0:
        b = -b
    while b != 0:
        t = b
        b = a % b
        a = t
    return a

def _dense_offset_stride(cases):
    n = len(cases)
    if n < 2:
        return None
    c: 'double'
    for c in cases:
        if not isfinite(c) or fabs(c) > _CASE_MAG_LIMIT or c != __cast__('double', __cast__('int64_t', c)):
            return None
    if __cast__('int64_t', __cast__('double', cases[n - 1])) - __cast__('int64_t', __cast__('double', cases[0])) > _CASE_SPAN_LIMIT:
        return None
    off = __cast__('int64_t', __cast__('double', cases[0]))
    g = 0
    i: 'int32_t'
    for i in range(1, n):
        g = _gcd(g, __cast__('int64_t', __cast__('double', cases[i])) - off)
    if g == 0:
        return None
    span = (__cast__('int64_t', __cast__('double', cases[n - 1])) - off) // g + 1
    return (off, g, span)

def _normalize_switch(func):
    nb = func.n_blocks
    edges = func.edges
    b: 'int32_t'
    e: 'int32_t'
    estart: 'int32_t'
    ecount: 'int32_t'
    tv: 'int32_t'
    coff: 'int32_t'
    cstr: 'int32_t'
    new_tv: 'int32_t'
    cid: 'int32_t'
    k: 'int32_t'
    has_default: 'bint'
    offv: 'double'
    strv: 'double'
    off_i: 'int64_t'
    str_i: 'int64_t'
    span: 'int64_t'
    idx: 'int64_t'
    cases: 'list'
    for b in range(nb):
        estart = func.blocks[b].edge_start
        ecount = func.blocks[b].edge_count
        cases = []
        has_default = False
        for e in range(estart, estart + ecount):
            if edges[e].cond_kind == EDGE_COND_NONE:
                has_default = True
            else:
                cases.append(edges[e].cond)
        cases = sorted(set(cases))
        if len(cases) + (1 if has_default else 0) < 3:
            continue
        res = _offset_stride(cases)
        if res is not None:
            off_i = __cast__('int64_t', res[0])
            str_i = __cast__('int64_t', res[1])
            if off_i == 0 and str_i == 1:
                continue
        else:
            dres = _dense_offset_stride(cases)
            if dres is None:
                continue
            off_i = __cast__('int64_t', dres[0])
            str_i = __cast__('int64_t', dres[1])
            span = __cast__('int64_t', dres[2])
            k = len(cases)
            if span > 2 * __cast__('int64_t', k):
                continue
            if off_i == 0 and str_i == 1:
                continue
        for e in range(estart, estart + ecount):
            if edges[e].cond_kind == EDGE_COND_VALUE:
                idx = (__cast__('int64_t', edges[e].cond) - off_i) // str_i
                edges[e].cond = __cast__('double', idx)
                edges[e].cond_is_int = 1
        offv = __cast__('double', off_i)
        strv = __cast__('double', str_i)
        tv = func.blocks[b].test_val
        new_tv = tv
        if off_i != 0:
            cid = func._intern_const(offv)
            coff = func._emit(OPX_CONST, FLAG_PURE | FLAG_CONST_IS_INT, b, cid, [])
            new_tv = func._emit(__cast__('uint16_t', OP_Subtract), FLAG_PURE, b, -1, [new_tv, coff])
        if str_i != 1:
            cid = func._intern_const(strv)
            cstr = func._emit(OPX_CONST, FLAG_PURE | FLAG_CONST_IS_INT, b, cid, [])
            new_tv = func._emit(__cast__('uint16_t', OP_Divide), FLAG_PURE, b, -1, [new_tv, cstr])
        func.blocks[b].test_val = new_tv

def _offset_stride(cases):
    n = len(cases)
    if n < 2:
        return None
    c: 'double'
    for c in cases:
        if not isfinite(c) or fabs(c) > _CASE_MAG_LIMIT or c != __cast__('double', __cast__('int64_t', c)):
            return None
    if __cast__('int64_t', __cast__('double', cases[n - 1])) - __cast__('int64_t', __cast__('double', cases[0])) > _CASE_SPAN_LIMIT:
        return None
    offset = __cast__('double', cases[0])
    stride = __cast__('double', cases[1]) - offset
    if stride == 0.0:
        return None
    i: 'int32_t'
    case: 'double'
    for i in range(2, n):
        case = __cast__('double', cases[i])
        if case != offset + i * stride:
            return None
    return (int(offset), int(stride))

def lower_from_ssa(func):
    lo = _Lower(func)
    lowered = __cast__('Func', lo.build())
    _coalesce(lowered)
    cleaned = cfg_cleanup(lowered, True)
    _normalize_switch(cleaned)
    return cleaned
IFCONV_ARM_BUDGET = 8

class _IfConv:
    src: 'Func'
    incoming: 'list'
    edge_pos: 'list'
    use_count: 'list'
    rtc_memo: 'list'
    undef_set: 'object'

    def __cinit__(self, src):
        self.src = src
        nb = src.n_blocks
        ni = src.n_instrs
        ne = src.n_edges
        e: 'int32_t'
        d: 'int32_t'
        self.incoming = [[] for _ in range(nb)]
        self.edge_pos = [0] * ne
        for e in range(ne):
            d = src.edges[e].dst
            lst = __cast__('list', self.incoming[d])
            self.edge_pos[e] = len(lst)
            lst.append(e)
        self.rtc_memo = [None] * ni
        self.undef_set = src._ssa_undef if src._ssa_undef is not None else set()
        self._count_uses()

    def _count_uses(self):
        src = self.src
        ni = src.n_instrs
        i: 'int32_t'
        op: 'int32_t'
        astart: 'int32_t'
        nargs: 'int32_t'
        k: 'int32_t'
        pid: 'int32_t'
        b: 'int32_t'
        uc = [0] * ni
        for i in range(ni):
            op = src.instrs[i].op
            if op == OPX_CONST or op == OPX_UNDEF:
                continue
            astart = src.instrs[i].arg_start
            nargs = src.instrs[i].nargs
            for k in range(nargs):
                uc[__cast__('int32_t', src.args[astart + k])] += 1
            if op == OPX_GET or op == OPX_SET:
                pid = src.instrs[i].aux
                if src.places[pid].kind == PLACE_DYNAMIC_BLOCK:
                    uc[src.places[pid].block_ref] += 1
                if src.places[pid].index_val >= 0:
                    uc[src.places[pid].index_val] += 1
        for b in range(src.n_blocks):
            if src.blocks[b].test_val >= 0:
                uc[src.blocks[b].test_val] += 1
        self.use_count = uc

    def _is_rtc(self, v, depth_left):
        cached = self.rtc_memo[v]
        if cached is not None:
            return __cast__('bint', cached)
        if depth_left <= 0:
            return False
        src = self.src
        op = src.instrs[v].op
        astart: 'int32_t'
        nargs: 'int32_t'
        k: 'int32_t'
        o: 'int32_t'
        r: 'bint'
        if op == OPX_CONST:
            r = True
        elif op == OPX_GET:
            r = src.places[src.instrs[v].aux].flags & PLACE_RUNTIME_CONST != 0
        elif op < OP_RUNTIME_COUNT and src.instrs[v].flags & FLAG_PURE:
            r = True
            astart = src.instrs[v].arg_start
            nargs = src.instrs[v].nargs
            for k in range(nargs):
                o = __cast__('int32_t', src.args[astart + k])
                if not self._is_rtc(o, depth_left - 1):
                    r = False
                    break
        else:
            r = False
        self.rtc_memo[v] = r
        return r

    def _arm_cost(self, v, arm_block, budget):
        src = self.src
        op: 'int32_t'
        astart: 'int32_t'
        nargs: 'int32_t'
        k: 'int32_t'
        r: 'int32_t'
        if self._is_rtc(v, _MAX_FOLD_DEPTH):
            return 1
        op = src.instrs[v].op
        if op == OPX_CONST:
            return 1
        if src.instrs[v].block != arm_block:
            return 3
        r = 1
        astart = src.instrs[v].arg_start
        nargs = src.instrs[v].nargs
        for k in range(nargs):
            if r > budget:
                return r
            r += __cast__('int32_t', self._arm_cost(__cast__('int32_t', src.args[astart + k]), arm_block, budget - r))
        return r

    def _arm_legal_op(self, i):
        op = self.src.instrs[i].op
        if op >= OP_RUNTIME_COUNT:
            return False
        if not self.src.instrs[i].flags & FLAG_PURE:
            return False
        if op == OP_Random or op == OP_RandomInteger:
            return False
        return True

    def _is_arm(self, s, p, e_ps):
        src = self.src
        i: 'int32_t'
        op: 'int32_t'
        istart: 'int32_t'
        icount: 'int32_t'
        if s == p:
            return False
        inc = __cast__('list', self.incoming[s])
        if len(inc) != 1 or __cast__('int32_t', inc[0]) != e_ps:
            return False
        if src.blocks[s].edge_count != 1:
            return False
        if src.edges[src.blocks[s].edge_start].cond_kind != EDGE_COND_NONE:
            return False
        if src.blocks[s].phi_count != 0:
            return False
        istart = src.blocks[s].instr_start
        icount = src.blocks[s].instr_count
        for i in range(istart, istart + icount):
            op = src.instrs[i].op
            if op == OPX_CONST:
                continue
            if not __cast__('bint', self._arm_legal_op(i)):
                return False
            if __cast__('int32_t', self.use_count[i]) > 1:
                return False
            if i in self.undef_set:
                return False
        return True

    def _side(self, e_ps, p):
        src = self.src
        s = src.edges[e_ps].dst
        e_out: 'int32_t'
        if __cast__('bint', self._is_arm(s, p, e_ps)):
            e_out = src.blocks[s].edge_start
            return (s, e_out, src.edges[e_out].dst)
        return (-1, e_ps, s)

    def _phi_operand(self, phi, edge):
        pos = __cast__('int32_t', self.edge_pos[edge])
        return __cast__('int32_t', self.src.args[self.src.instrs[phi].arg_start + pos])

    def _try_head(self, p):
        src = self.src
        estart = src.blocks[p].edge_start
        ecount = src.blocks[p].edge_count
        e: 'int32_t'
        none_edge = -1
        val_edge = -1
        cval = 0.0
        cond_is_int = 0
        test_old = src.blocks[p].test_val
        kind: 'int32_t'
        true_edge_p: 'int32_t'
        false_edge_p: 'int32_t'
        arm_t: 'int32_t'
        ejt: 'int32_t'
        jt: 'int32_t'
        arm_f: 'int32_t'
        ejf: 'int32_t'
        jf: 'int32_t'
        j: 'int32_t'
        jps: 'int32_t'
        jpc: 'int32_t'
        phi: 'int32_t'
        budget: 'int32_t'
        if ecount != 2 or test_old < 0:
            return None
        for e in range(estart, estart + ecount):
            if src.edges[e].cond_kind == EDGE_COND_NONE:
                none_edge = e
            elif src.edges[e].cond_kind == EDGE_COND_VALUE:
                val_edge = e
                cval = src.edges[e].cond
                cond_is_int = src.edges[e].cond_is_int
        if none_edge < 0 or val_edge < 0:
            return None
        if cval == 0.0:
            kind = 0
            true_edge_p = none_edge
            false_edge_p = val_edge
        else:
            kind = 1
            true_edge_p = val_edge
            false_edge_p = none_edge
        ti = self._side(true_edge_p, p)
        fi = self._side(false_edge_p, p)
        arm_t = __cast__('int32_t', ti[0])
        ejt = __cast__('int32_t', ti[1])
        jt = __cast__('int32_t', ti[2])
        arm_f = __cast__('int32_t', fi[0])
        ejf = __cast__('int32_t', fi[1])
        jf = __cast__('int32_t', fi[2])
        if jt != jf:
            return None
        j = jt
        if j == p:
            return None
        if arm_t >= 0 and (arm_t == j or arm_t == p):
            return None
        if arm_f >= 0 and (arm_f == j or arm_f == p):
            return None
        if arm_t >= 0 and arm_f >= 0 and (arm_t == arm_f):
            return None
        budget = __cast__('int32_t', IFCONV_ARM_BUDGET)
        jps = src.blocks[j].phi_start
        jpc = src.blocks[j].phi_count
        for phi in range(jps, jps + jpc):
            if __cast__('int32_t', self._arm_cost(self._phi_operand(phi, ejt), arm_t, budget)) > budget:
                return None
            if __cast__('int32_t', self._arm_cost(self._phi_operand(phi, ejf), arm_f, budget)) > budget:
                return None
        return {'P': p, 'J': j, 'arm_true': arm_t, 'arm_false': arm_f, 'sel_true_edge': ejt, 'sel_false_edge': ejf, 'kind': kind, 'cval': cval, 'cond_is_int': cond_is_int, 'test_old': test_old}

    def _plan(self):
        p: 'int32_t'
        convs = []
        claimed = set()
        for p in range(self.src.n_blocks):
            conv = self._try_head(p)
            if conv is None:
                continue
            used = {conv['P'], conv['J']}
            if conv['arm_true'] >= 0:
                used.add(conv['arm_true'])
            if conv['arm_false'] >= 0:
                used.add(conv['arm_false'])
            if used & claimed:
                continue
            claimed |= used
            convs.append(conv)
        return convs

    def _argcount(self, i):
        op = self.src.instrs[i].op
        if op == OPX_CONST or op == OPX_UNDEF or op == OPX_GET:
            return 0
        if op == OPX_SET:
            return 1
        return self.src.instrs[i].nargs

    def _resolve(self, newidx, subst_phi, v):
        if v in subst_phi:
            return __cast__('int32_t', subst_phi[v])
        return __cast__('int32_t', newidx[v])

    def _remap_place(self, dst, newidx, subst_phi, place_map, old_pid):
        src = self.src
        kind = src.places[old_pid].kind
        flags = src.places[old_pid].flags
        br = src.places[old_pid].block_ref
        iv = src.places[old_pid].index_val
        off = src.places[old_pid].offset
        if kind == PLACE_DYNAMIC_BLOCK:
            br = __cast__('int32_t', self._resolve(newidx, subst_phi, br))
        if iv >= 0:
            iv = __cast__('int32_t', self._resolve(newidx, subst_phi, iv))
        key = (kind, flags, br, iv, off)
        cached = place_map.get(key)
        if cached is not None:
            return __cast__('int32_t', cached)
        pid = _add_place_l(dst, __cast__('uint8_t', kind), __cast__('uint8_t', flags), br, iv, off)
        place_map[key] = pid
        return pid

    def _build(self, conversions):
        src = self.src
        dst = Func()
        nb_old = src.n_blocks
        i: 'int32_t'
        b: 'int32_t'
        k: 'int32_t'
        e: 'int32_t'
        p: 'int32_t'
        d: 'int32_t'
        op: 'int32_t'
        astart: 'int32_t'
        nargs: 'int32_t'
        kk: 'int32_t'
        pos: 'int32_t'
        oe: 'int32_t'
        jps: 'int32_t'
        jpc: 'int32_t'
        a_istart: 'int32_t'
        a_icount: 'int32_t'
        ef: 'int32_t'
        arm: 'int32_t'
        nei: 'int32_t'
        ni: 'int32_t'
        pstart: 'int32_t'
        pcount: 'int32_t'
        head_conv = {}
        join_conv = {}
        arm_blocks = set()
        for conv in conversions:
            head_conv[conv['P']] = conv
            join_conv[conv['J']] = conv
            if conv['arm_true'] >= 0:
                arm_blocks.add(conv['arm_true'])
            if conv['arm_false'] >= 0:
                arm_blocks.add(conv['arm_false'])
        new_order = [b for b in range(nb_old) if b not in arm_blocks]
        nb_new = len(new_order)
        newblk = [-1] * nb_old
        for k in range(nb_new):
            newblk[__cast__('int32_t', new_order[k])] = k
        if src.n_consts > 0:
            dst.consts = __cast__('double*', malloc(__cast__('unsigned size_t', src.n_consts) * __sizeof__('double')))
            if dst.consts == NULL:
                raise MemoryError()
            memcpy(dst.consts, src.consts, __cast__('unsigned size_t', src.n_consts) * __sizeof__('double'))
        dst.n_consts = src.n_consts
        dst.cap_consts = src.n_consts
        dst._rebuild_const_intern()
        if src.n_temps > 0:
            dst.temps = __cast__('TempInfo*', malloc(__cast__('unsigned size_t', src.n_temps) * __sizeof__(TempInfo)))
            if dst.temps == NULL:
                raise MemoryError()
            memcpy(dst.temps, src.temps, __cast__('unsigned size_t', src.n_temps) * __sizeof__(TempInfo))
        dst.n_temps = src.n_temps
        dst.cap_temps = src.n_temps
        dst.names = list(src.names)
        dst._temp_intern = dict(src._temp_intern)
        dst._block_enum_by_id = dict(src._block_enum_by_id)
        dst.blocks_type = src.blocks_type
        dst.callback = src.callback
        dst._block_map = dict(src._block_map)
        dst.is_ssa = True
        for conv in conversions:
            if conv['kind'] == 1:
                conv['_cid'] = __cast__('int32_t', dst._intern_const(__cast__('double', conv['cval'])))
        phi_opmap = {}
        for b in range(nb_old):
            pstart = src.blocks[b].phi_start
            pcount = src.blocks[b].phi_count
            inclist = __cast__('list', self.incoming[b])
            for p in range(pstart, pstart + pcount):
                astart = src.instrs[p].arg_start
                m = {}
                for kk in range(src.instrs[p].nargs):
                    m[__cast__('int32_t', inclist[kk])] = __cast__('int32_t', src.args[astart + kk])
                phi_opmap[p] = m
        new_edges = []
        incoming_new = [[] for _ in range(nb_old)]
        block_edge_start = [0] * nb_new
        block_edge_count = [0] * nb_new
        for k in range(nb_new):
            b = __cast__('int32_t', new_order[k])
            block_edge_start[k] = len(new_edges)
            if b in head_conv:
                conv = head_conv[b]
                d = __cast__('int32_t', conv['J'])
                nei = len(new_edges)
                new_edges.append((k, __cast__('int32_t', newblk[d]), __cast__('int32_t', EDGE_COND_NONE), 0.0, 0))
                __cast__('list', incoming_new[d]).append((nei, -1))
            else:
                for e in range(src.blocks[b].edge_start, src.blocks[b].edge_start + src.blocks[b].edge_count):
                    d = src.edges[e].dst
                    nei = len(new_edges)
                    new_edges.append((k, __cast__('int32_t', newblk[d]), src.edges[e].cond_kind, src.edges[e].cond, src.edges[e].cond_is_int))
                    __cast__('list', incoming_new[d]).append((nei, e))
            block_edge_count[k] = len(new_edges) - block_edge_start[k]
        newidx = {}
        subst_phi = {}
        phi_select = {}
        block_desc = [None] * nb_new
        block_start = [0] * nb_new
        next_idx = 0
        total_args = 0
        for k in range(nb_new):
            b = __cast__('int32_t', new_order[k])
            block_start[k] = next_idx
            descs = []
            conv = head_conv.get(b)
            is_join = b in join_conv
            n_in = len(__cast__('list', incoming_new[b]))
            for i in range(src.blocks[b].instr_start, src.blocks[b].instr_start + src.blocks[b].instr_count):
                op = src.instrs[i].op
                if op == OPX_PHI:
                    if is_join and n_in == 1:
                        subst_phi[i] = __cast__('int32_t', phi_select[i])
                        continue
                    descs.append(('phi', i))
                    newidx[i] = next_idx
                    next_idx += 1
                    total_args += n_in
                else:
                    descs.append(('src', i, 0))
                    newidx[i] = next_idx
                    next_idx += 1
                    total_args += __cast__('int32_t', self._argcount(i))
            if conv is not None:
                for arm in (conv['arm_true'], conv['arm_false']):
                    if arm >= 0:
                        a_istart = src.blocks[arm].instr_start
                        a_icount = src.blocks[arm].instr_count
                        for i in range(a_istart, a_istart + a_icount):
                            op = src.instrs[i].op
                            if op < OP_RUNTIME_COUNT and __cast__('int32_t', self.use_count[i]) == 1:
                                ef = FLAG_MUST_FOLD
                            else:
                                ef = 0
                            descs.append(('src', i, ef))
                            newidx[i] = next_idx
                            next_idx += 1
                            total_args += __cast__('int32_t', self._argcount(i))
                if conv['kind'] == 1:
                    descs.append(('const', conv))
                    conv['_const_id'] = next_idx
                    next_idx += 1
                    descs.append(('eq', conv))
                    conv['_eq_id'] = next_idx
                    next_idx += 1
                    total_args += 2
                jps = src.blocks[__cast__('int32_t', conv['J'])].phi_start
                jpc = src.blocks[__cast__('int32_t', conv['J'])].phi_count
                for p in range(jps, jps + jpc):
                    descs.append(('sel', conv, p))
                    phi_select[p] = next_idx
                    next_idx += 1
                    total_args += 3
            block_desc[k] = descs
        total_instrs = next_idx
        dst.instrs = __cast__('Instr*', malloc(__cast__('unsigned size_t', total_instrs if total_instrs > 0 else 1) * __sizeof__(Instr)))
        dst.args = __cast__('uint32_t*', malloc(__cast__('unsigned size_t', total_args if total_args > 0 else 1) * __sizeof__(uint32_t)))
        if dst.instrs == NULL or dst.args == NULL:
            raise MemoryError()
        dst.n_instrs = total_instrs
        dst.cap_instrs = total_instrs
        dst.cap_args = total_args
        dst.blocks = __cast__('BlockInfo*', malloc(__cast__('unsigned size_t', nb_new if nb_new > 0 else 1) * __sizeof__(BlockInfo)))
        if dst.blocks == NULL:
            raise MemoryError()
        dst.n_blocks = nb_new
        dst.cap_blocks = nb_new
        dst.entry_block = __cast__('int32_t', newblk[src.entry_block])
        place_map = {}
        arg_cursor = 0
        phi_first: 'int32_t'
        phi_cnt: 'int32_t'
        operand: 'int32_t'
        test_new: 'int32_t'
        t_op: 'int32_t'
        f_op: 'int32_t'
        tv: 'int32_t'
        for k in range(nb_new):
            b = __cast__('int32_t', new_order[k])
            descs = __cast__('list', block_desc[k])
            phi_first = -1
            phi_cnt = 0
            ni = block_start[k]
            for desc in descs:
                tag = desc[0]
                dst.instrs[ni].block = k
                dst.instrs[ni].arg_start = arg_cursor
                if tag == 'phi':
                    p = __cast__('int32_t', desc[1])
                    for prov in __cast__('list', incoming_new[b]):
                        oe = __cast__('int32_t', prov[1])
                        if oe < 0:
                            operand = __cast__('int32_t', phi_select[p])
                        else:
                            operand = __cast__('int32_t', self._resolve(newidx, subst_phi, __cast__('int32_t', __cast__('dict', phi_opmap[p])[oe])))
                        dst.args[arg_cursor] = __cast__('uint32_t', operand)
                        arg_cursor += 1
                    dst.instrs[ni].op = OPX_PHI
                    dst.instrs[ni].flags = src.instrs[p].flags
                    dst.instrs[ni].aux = src.instrs[p].aux
                    dst.instrs[ni].nargs = __cast__('int16_t', len(__cast__('list', incoming_new[b])))
                    if phi_first == -1:
                        phi_first = ni
                    phi_cnt += 1
                elif tag == 'src':
                    p = __cast__('int32_t', desc[1])
                    ef = __cast__('int32_t', desc[2])
                    op = src.instrs[p].op
                    dst.instrs[ni].flags = __cast__('uint8_t', src.instrs[p].flags | ef)
                    if op == OPX_CONST:
                        dst.instrs[ni].op = OPX_CONST
                        dst.instrs[ni].aux = src.instrs[p].aux
                        dst.instrs[ni].nargs = 0
                    elif op == OPX_UNDEF:
                        dst.instrs[ni].op = OPX_UNDEF
                        dst.instrs[ni].aux = -1
                        dst.instrs[ni].nargs = 0
                    elif op == OPX_GET:
                        dst.instrs[ni].op = OPX_GET
                        dst.instrs[ni].aux = __cast__('int32_t', self._remap_place(dst, newidx, subst_phi, place_map, src.instrs[p].aux))
                        dst.instrs[ni].nargs = 0
                    elif op == OPX_SET:
                        operand = __cast__('int32_t', self._resolve(newidx, subst_phi, __cast__('int32_t', src.args[src.instrs[p].arg_start])))
                        dst.instrs[ni].op = OPX_SET
                        dst.instrs[ni].aux = __cast__('int32_t', self._remap_place(dst, newidx, subst_phi, place_map, src.instrs[p].aux))
                        dst.args[arg_cursor] = __cast__('uint32_t', operand)
                        arg_cursor += 1
                        dst.instrs[ni].nargs = 1
                    else:
                        astart = src.instrs[p].arg_start
                        nargs = src.instrs[p].nargs
                        for kk in range(nargs):
                            dst.args[arg_cursor] = __cast__('uint32_t', __cast__('int32_t', self._resolve(newidx, subst_phi, __cast__('int32_t', src.args[astart + kk]))))
                            arg_cursor += 1
                        dst.instrs[ni].op = __cast__('uint16_t', op)
                        dst.instrs[ni].aux = src.instrs[p].aux
                        dst.instrs[ni].nargs = __cast__('int16_t', nargs)
                elif tag == 'const':
                    conv = desc[1]
                    dst.instrs[ni].op = OPX_CONST
                    dst.instrs[ni].flags = __cast__('uint8_t', FLAG_PURE | (FLAG_CONST_IS_INT if conv['cond_is_int'] else 0))
                    dst.instrs[ni].aux = __cast__('int32_t', conv['_cid'])
                    dst.instrs[ni].nargs = 0
                elif tag == 'eq':
                    conv = desc[1]
                    test_new = __cast__('int32_t', self._resolve(newidx, subst_phi, __cast__('int32_t', conv['test_old'])))
                    dst.args[arg_cursor] = __cast__('uint32_t', test_new)
                    arg_cursor += 1
                    dst.args[arg_cursor] = __cast__('uint32_t', __cast__('int32_t', conv['_const_id']))
                    arg_cursor += 1
                    dst.instrs[ni].op = __cast__('uint16_t', OP_Equal)
                    dst.instrs[ni].flags = FLAG_PURE
                    dst.instrs[ni].aux = -1
                    dst.instrs[ni].nargs = 2
                else:
                    conv = desc[1]
                    p = __cast__('int32_t', desc[2])
                    if conv['kind'] == 0:
                        test_new = __cast__('int32_t', self._resolve(newidx, subst_phi, __cast__('int32_t', conv['test_old'])))
                    else:
                        test_new = __cast__('int32_t', conv['_eq_id'])
                    t_op = __cast__('int32_t', self._resolve(newidx, subst_phi, __cast__('int32_t', __cast__('dict', phi_opmap[p])[__cast__('int32_t', conv['sel_true_edge'])])))
                    f_op = __cast__('int32_t', self._resolve(newidx, subst_phi, __cast__('int32_t', __cast__('dict', phi_opmap[p])[__cast__('int32_t', conv['sel_false_edge'])])))
                    dst.args[arg_cursor] = __cast__('uint32_t', test_new)
                    arg_cursor += 1
                    dst.args[arg_cursor] = __cast__('uint32_t', t_op)
                    arg_cursor += 1
                    dst.args[arg_cursor] = __cast__('uint32_t', f_op)
                    arg_cursor += 1
                    dst.instrs[ni].op = __cast__('uint16_t', OP_If)
                    dst.instrs[ni].flags = FLAG_PURE
                    dst.instrs[ni].aux = -1
                    dst.instrs[ni].nargs = 3
                ni += 1
            dst.blocks[k].instr_start = block_start[k]
            dst.blocks[k].instr_count = ni - block_start[k]
            dst.blocks[k].phi_start = phi_first if phi_cnt > 0 else block_start[k]
            dst.blocks[k].phi_count = phi_cnt
            dst.blocks[k].rpo = k
            dst.blocks[k].idom = -1
            dst.blocks[k].edge_start = block_edge_start[k]
            dst.blocks[k].edge_count = block_edge_count[k]
            if b in head_conv:
                dst.blocks[k].test_val = -1
            else:
                tv = src.blocks[b].test_val
                if tv >= 0:
                    dst.blocks[k].test_val = __cast__('int32_t', self._resolve(newidx, subst_phi, tv))
                else:
                    dst.blocks[k].test_val = -1
        dst.n_args = arg_cursor
        nen = len(new_edges)
        dst.edges = __cast__('Edge*', malloc(__cast__('unsigned size_t', nen if nen > 0 else 1) * __sizeof__(Edge)))
        if dst.edges == NULL:
            raise MemoryError()
        for e in range(nen):
            t = new_edges[e]
            dst.edges[e].src = __cast__('int32_t', t[0])
            dst.edges[e].dst = __cast__('int32_t', t[1])
            dst.edges[e].cond_kind = __cast__('uint8_t', __cast__('int32_t', t[2]))
            dst.edges[e].cond = __cast__('double', t[3])
            dst.edges[e].cond_is_int = __cast__('uint8_t', __cast__('int32_t', t[4]))
        dst.n_edges = nen
        dst.cap_edges = nen
        if src.undef_val >= 0 and src.undef_val in newidx:
            dst.undef_val = __cast__('int32_t', newidx[src.undef_val])
        else:
            dst.undef_val = -1
        widened = set()
        if src._ssa_undef:
            for wv in src._ssa_undef:
                if wv in subst_phi:
                    widened.add(__cast__('int32_t', subst_phi[wv]))
                elif wv in newidx:
                    widened.add(__cast__('int32_t', newidx[wv]))
        dst._ssa_undef = widened
        compute_dominators(dst)
        return dst

def _if_convert_once(func):
    ic = _IfConv(func)
    convs = ic._plan()
    if not convs:
        return (func, 0)
    return (ic._build(convs), len(convs))

def _if_convert_run(func):
    cur = func
    total = 0
    guard = 0
    while True:
        res = _if_convert_once(cur)
        cur = __cast__('Func', res[0])
        n = __cast__('int32_t', res[1])
        total += n
        guard += 1
        if n == 0 or guard > 4096:
            break
    return (cur, total)

def if_convert(func):
    res = _if_convert_run(func)
    return __cast__('Func', res[0])

def run_lower(entry, mode=None, callback=None, strategy='packing', midend=False):
    func = cfg_cleanup(__cast__('Func', marshal_in(entry, mode, callback)), False)
    ssa = build_ssa(func)
    ssa = _maybe_midend(ssa, midend)
    lowered = lower_from_ssa(ssa)
    code = _strategy_code(strategy)
    allocate_func(lowered, code)
    return to_basic_blocks(lowered)

def lower_debug(entry, mode=None, callback=None, midend=False):
    func = cfg_cleanup(__cast__('Func', marshal_in(entry, mode, callback)), False)
    ssa = build_ssa(func)
    ssa = _maybe_midend(ssa, midend)
    lowered = lower_from_ssa(ssa)
    return to_basic_blocks(lowered)

def _maybe_midend(ssa, midend):
    if not midend:
        return ssa
    return midend_round(ssa, True)

def _ifconv_ssa(entry, mode, callback):
    func = cfg_cleanup(__cast__('Func', marshal_in(entry, mode, callback)), False)
    ssa = build_ssa(func)
    opt = midend_round(ssa, True)
    return if_convert(opt)

def run_ifconv(entry, mode=None, callback=None):
    conv = _ifconv_ssa(entry, mode, callback)
    conv.verify()
    return to_basic_blocks(conv)

def run_ifconv_counted(entry, mode=None, callback=None):
    func = cfg_cleanup(__cast__('Func', marshal_in(entry, mode, callback)), False)
    ssa = build_ssa(func)
    opt = midend_round(ssa, True)
    res = _if_convert_run(opt)
    conv = __cast__('Func', res[0])
    conv.verify()
    return (to_basic_blocks(conv), __cast__('int32_t', res[1]))

def run_ifconv_full(entry, mode=None, callback=None, strategy='packing'):
    conv = _ifconv_ssa(entry, mode, callback)
    lowered = lower_from_ssa(conv)
    code = _strategy_code(strategy)
    allocate_func(lowered, code)
    return to_basic_blocks(lowered)

def ifconv_lower_debug(entry, mode=None, callback=None):
    conv = _ifconv_ssa(entry, mode, callback)
    lowered = lower_from_ssa(conv)
    return to_basic_blocks(lowered)
