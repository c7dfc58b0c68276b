from libc.stdint import int32_t, int64_t, uint8_t, uint16_t, uint32_t, uint64_t
from libc.stdlib import calloc, free, malloc
from libc.string import memcmp, memcpy, memset
from sonolus.backend._opt.ir import BlockInfo, Edge, FLAG_SIDE_EFFECT, FLAG_STMT_ROOT, Func, Instr, PLACE_DYNAMIC_BLOCK, PLACE_TEMP_ARRAY, PLACE_TEMP_SCALAR, PLACE_TEMP_SIZE0, PlaceInfo
from sonolus.backend._opt._ops_gen import OPX_CONST, OPX_GET, OPX_SET
from sonolus.backend._opt.ir import marshal_in as marshal_in

def _gen_value(instrs, args, places, bs, vid):
    op = instrs[vid].op
    astart: 'int32_t'
    nargs: 'int32_t'
    k: 'int32_t'
    pid: 'int32_t'
    kind: 'uint8_t'
    br: 'int32_t'
    iv: 'int32_t'
    if op == OPX_CONST:
        return
    if op == OPX_GET:
        pid = instrs[vid].aux
        kind = places[pid].kind
        br = places[pid].block_ref
        iv = places[pid].index_val
        if kind == PLACE_TEMP_SCALAR or kind == PLACE_TEMP_ARRAY or kind == PLACE_TEMP_SIZE0:
            bs_set(bs, br)
        elif kind == PLACE_DYNAMIC_BLOCK:
            _gen_value(instrs, args, places, bs, br)
        if iv >= 0:
            _gen_value(instrs, args, places, bs, iv)
        return
    astart = instrs[vid].arg_start
    nargs = instrs[vid].nargs
    for k in range(nargs):
        _gen_value(instrs, args, places, bs, __cast__('int32_t', args[astart + k]))

def _gen_place_write(instrs, args, places, bs, pid):
    kind = places[pid].kind
    br = places[pid].block_ref
    iv = places[pid].index_val
    if kind == PLACE_DYNAMIC_BLOCK:
        _gen_value(instrs, args, places, bs, br)
    if iv >= 0:
        _gen_value(instrs, args, places, bs, iv)

def _c64(count):
    n = count if count > 0 else 1
    p = __cast__('uint64_t*', calloc(__cast__('unsigned size_t', n), __sizeof__(uint64_t)))
    if p == NULL:
        raise MemoryError()
    return p

def _or_into(dst, src, nw):
    w: 'int32_t'
    before: 'uint64_t'
    changed = False
    for w in range(nw):
        before = dst[w]
        dst[w] = before | src[w]
        if dst[w] != before:
            changed = True
    return changed

class Liveness:

    def __cinit__(self):
        self.func = None
        self.live_in = NULL
        self.live_out = NULL
        self.array_defs_out = NULL
        self.array_mask = NULL
        self.root_live = NULL
        self.root_slot = NULL
        self.is_array_init = NULL

    def __dealloc__(self):
        free(self.live_in)
        free(self.live_out)
        free(self.array_defs_out)
        free(self.array_mask)
        free(self.root_live)
        free(self.root_slot)
        free(self.is_array_init)

    def _bitset_names(self, bs):
        f = self.func
        out = set()
        t: 'int32_t'
        for t in range(self.n_temps):
            if bs_get(bs, t):
                out.add(f.names[f.temps[t].name_id])
        return out

    def live_in_names(self):
        d = {}
        b: 'int32_t'
        for b in range(self.n_blocks):
            d[b] = self._bitset_names(__addr__(self.live_in[__cast__('int64_t', b) * self.n_words]))
        return d

    def live_out_names(self):
        d = {}
        b: 'int32_t'
        for b in range(self.n_blocks):
            d[b] = self._bitset_names(__addr__(self.live_out[__cast__('int64_t', b) * self.n_words]))
        return d

    def root_live_names(self):
        d = {}
        f = self.func
        i: 'int32_t'
        for i in range(self.n_instrs):
            if self.root_slot[i] >= 0:
                d[i] = self._bitset_names(__addr__(self.root_live[__cast__('int64_t', self.root_slot[i]) * self.n_words]))
        return d

    def array_defs_out_names(self):
        d = {}
        b: 'int32_t'
        for b in range(self.n_blocks):
            d[b] = self._bitset_names(__addr__(self.array_defs_out[__cast__('int64_t', b) * self.n_words]))
        return d

    def is_array_init_map(self):
        d = {}
        f = self.func
        i: 'int32_t'
        pid: 'int32_t'
        for i in range(self.n_instrs):
            if self.root_slot[i] < 0:
                continue
            if f.instrs[i].op != OPX_SET:
                continue
            pid = f.instrs[i].aux
            if f.places[pid].kind == PLACE_TEMP_ARRAY:
                d[i] = bool(self.is_array_init[i])
        return d

def compute_liveness(func):
    L = Liveness()
    L.func = func
    n_temps = func.n_temps
    nb = func.n_blocks
    ni = func.n_instrs
    ne = func.n_edges
    nw = n_temps + 63 >> 6
    L.n_temps = n_temps
    L.n_blocks = nb
    L.n_instrs = ni
    L.n_words = nw
    instrs = func.instrs
    args = func.args
    places = func.places
    blocks = func.blocks
    edges = func.edges
    i: 'int32_t'
    b: 'int32_t'
    t: 'int32_t'
    e: 'int32_t'
    w: 'int32_t'
    L.root_slot = __cast__('int32_t*', malloc(__cast__('unsigned size_t', ni if ni > 0 else 1) * __sizeof__(int32_t)))
    if L.root_slot == NULL:
        raise MemoryError()
    n_roots = 0
    for i in range(ni):
        if instrs[i].flags & FLAG_STMT_ROOT:
            L.root_slot[i] = n_roots
            n_roots += 1
        else:
            L.root_slot[i] = -1
    L.n_roots = n_roots
    L.live_in = _c64(__cast__('int64_t', nb) * nw)
    L.live_out = _c64(__cast__('int64_t', nb) * nw)
    L.array_defs_out = _c64(__cast__('int64_t', nb) * nw)
    L.array_mask = _c64(nw)
    L.root_live = _c64(__cast__('int64_t', n_roots) * nw)
    L.is_array_init = __cast__('uint8_t*', calloc(__cast__('unsigned size_t', ni if ni > 0 else 1), __sizeof__(uint8_t)))
    if L.is_array_init == NULL:
        raise MemoryError()
    for t in range(n_temps):
        if func.temps[t].size > 1:
            bs_set(L.array_mask, t)
    has_exit = False
    for b in range(nb):
        if blocks[b].edge_count == 0:
            has_exit = True
            break
    if nb > 0 and (not has_exit):
        raise ValueError('Infinite loop detected')
    array_written = __cast__('uint64_t*', calloc(__cast__('unsigned size_t', nw if nw > 0 else 1), __sizeof__(uint64_t)))
    pred_head = __cast__('int32_t*', calloc(__cast__('unsigned size_t', nb + 1), __sizeof__(int32_t)))
    pred_src = __cast__('int32_t*', malloc(__cast__('unsigned size_t', ne if ne > 0 else 1) * __sizeof__(int32_t)))
    cursor = __cast__('int32_t*', malloc(__cast__('unsigned size_t', nb if nb > 0 else 1) * __sizeof__(int32_t)))
    array_defs_in = __cast__('uint64_t*', calloc(__cast__('unsigned size_t', __cast__('int64_t', nb) * nw if nb > 0 and nw > 0 else 1), __sizeof__(uint64_t)))
    acc = __cast__('uint64_t*', calloc(__cast__('unsigned size_t', nw if nw > 0 else 1), __sizeof__(uint64_t)))
    live = __cast__('uint64_t*', calloc(__cast__('unsigned size_t', nw if nw > 0 else 1), __sizeof__(uint64_t)))
    visited = __cast__('uint8_t*', calloc(__cast__('unsigned size_t', nb if nb > 0 else 1), __sizeof__(uint8_t)))
    inq = __cast__('uint8_t*', calloc(__cast__('unsigned size_t', nb if nb > 0 else 1), __sizeof__(uint8_t)))
    stack = __cast__('int32_t*', malloc(__cast__('unsigned size_t', nb if nb > 0 else 1) * __sizeof__(int32_t)))
    if array_written == NULL or pred_head == NULL or pred_src == NULL or (cursor == NULL) or (array_defs_in == NULL) or (acc == NULL) or (live == NULL) or (visited == NULL) or (inq == NULL) or (stack == NULL):
        free(array_written)
        free(pred_head)
        free(pred_src)
        free(cursor)
        free(array_defs_in)
        free(acc)
        free(live)
        free(visited)
        free(inq)
        free(stack)
        raise MemoryError()
    aw_pid: 'int32_t'
    for i in range(ni):
        if instrs[i].op == OPX_SET and instrs[i].flags & FLAG_STMT_ROOT:
            aw_pid = instrs[i].aux
            if places[aw_pid].kind == PLACE_TEMP_ARRAY:
                bs_set(array_written, places[aw_pid].block_ref)
    for e in range(ne):
        pred_head[edges[e].dst + 1] += 1
    for b in range(nb):
        pred_head[b + 1] += pred_head[b]
    for b in range(nb):
        cursor[b] = pred_head[b]
    for e in range(ne):
        pred_src[cursor[edges[e].dst]] = edges[e].src
        cursor[edges[e].dst] += 1
    free(cursor)
    cursor = NULL
    sp: 'int32_t'
    istart: 'int32_t'
    icount: 'int32_t'
    s: 'int32_t'
    vid: 'int32_t'
    pid: 'int32_t'
    dt: 'int32_t'
    adt: 'int32_t'
    tv: 'int32_t'
    rs: 'int32_t'
    op: 'uint16_t'
    kind: 'uint8_t'
    side_eff: 'uint8_t'
    can_skip: 'bint'
    has_defs: 'bint'
    dlive: 'bint'
    changed: 'bint'
    with __nogil__:
        sp = 0
        stack[sp] = func.entry_block
        sp += 1
        inq[func.entry_block] = 1
        while sp > 0:
            sp -= 1
            b = stack[sp]
            inq[b] = 0
            memcpy(acc, __addr__(array_defs_in[__cast__('int64_t', b) * nw]), __cast__('unsigned size_t', nw) * __sizeof__(uint64_t))
            istart = blocks[b].instr_start
            icount = blocks[b].instr_count
            for i in range(istart, istart + icount):
                if not instrs[i].flags & FLAG_STMT_ROOT:
                    continue
                if instrs[i].op == OPX_SET:
                    pid = instrs[i].aux
                    if places[pid].kind == PLACE_TEMP_ARRAY:
                        t = places[pid].block_ref
                        if not bs_get(acc, t):
                            L.is_array_init[i] = 1
                            bs_set(acc, t)
                        else:
                            L.is_array_init[i] = 0
            changed = not visited[b] or memcmp(acc, __addr__(L.array_defs_out[__cast__('int64_t', b) * nw]), __cast__('unsigned size_t', nw) * __sizeof__(uint64_t)) != 0
            if changed:
                visited[b] = 1
                memcpy(__addr__(L.array_defs_out[__cast__('int64_t', b) * nw]), acc, __cast__('unsigned size_t', nw) * __sizeof__(uint64_t))
                for e in range(blocks[b].edge_start, blocks[b].edge_start + blocks[b].edge_count):
                    s = edges[e].dst
                    _or_into(__addr__(array_defs_in[__cast__('int64_t', s) * nw]), acc, nw)
                    if not inq[s]:
                        stack[sp] = s
                        sp += 1
                        inq[s] = 1
        memset(inq, 0, __cast__('unsigned size_t', nb if nb > 0 else 1) * __sizeof__(uint8_t))
        memset(visited, 0, __cast__('unsigned size_t', nb if nb > 0 else 1) * __sizeof__(uint8_t))
        sp = 0
        for b in range(nb):
            stack[sp] = b
            sp += 1
            inq[b] = 1
        while sp > 0:
            sp -= 1
            b = stack[sp]
            inq[b] = 0
            for w in range(nw):
                live[w] = L.live_out[__cast__('int64_t', b) * nw + w] & ~(L.array_mask[w] & array_written[w] & ~L.array_defs_out[__cast__('int64_t', b) * nw + w])
            tv = blocks[b].test_val
            if tv >= 0:
                _gen_value(instrs, args, places, live, tv)
            istart = blocks[b].instr_start
            icount = blocks[b].instr_count
            for i in range(istart + icount - 1, istart - 1, -1):
                if not instrs[i].flags & FLAG_STMT_ROOT:
                    continue
                rs = L.root_slot[i]
                memcpy(__addr__(L.root_live[__cast__('int64_t', rs) * nw]), live, __cast__('unsigned size_t', nw) * __sizeof__(uint64_t))
                op = instrs[i].op
                if op == OPX_SET:
                    vid = __cast__('int32_t', args[instrs[i].arg_start])
                    pid = instrs[i].aux
                    side_eff = instrs[vid].flags & FLAG_SIDE_EFFECT
                    kind = places[pid].kind
                    dt = -1
                    adt = -1
                    if kind == PLACE_TEMP_SCALAR:
                        dt = places[pid].block_ref
                    elif kind == PLACE_TEMP_ARRAY:
                        adt = places[pid].block_ref
                    can_skip = False
                    if not side_eff:
                        has_defs = dt >= 0 or adt >= 0
                        if has_defs:
                            dlive = dt >= 0 and bs_get(live, dt) or (adt >= 0 and bs_get(live, adt))
                            if not dlive:
                                can_skip = True
                    if can_skip:
                        continue
                    if dt >= 0:
                        bs_clear(live, dt)
                    if L.is_array_init[i] and adt >= 0:
                        bs_clear(live, adt)
                    _gen_place_write(instrs, args, places, live, pid)
                    _gen_value(instrs, args, places, live, vid)
                else:
                    _gen_value(instrs, args, places, live, i)
            memcpy(__addr__(L.live_in[__cast__('int64_t', b) * nw]), live, __cast__('unsigned size_t', nw) * __sizeof__(uint64_t))
            for e in range(pred_head[b], pred_head[b + 1]):
                s = pred_src[e]
                changed = _or_into(__addr__(L.live_out[__cast__('int64_t', s) * nw]), live, nw)
                if not visited[s] or changed:
                    visited[s] = 1
                    if not inq[s]:
                        stack[sp] = s
                        sp += 1
                        inq[s] = 1
    free(array_defs_in)
    free(array_written)
    free(acc)
    free(live)
    free(visited)
    free(inq)
    free(stack)
    free(pred_head)
    free(pred_src)
    return L

def liveness_debug(entry, mode=None, callback=None):
    func = __cast__('Func', marshal_in(entry, mode, callback))
    func.verify()
    L = compute_liveness(func)
    return {'live_in': L.live_in_names(), 'live_out': L.live_out_names(), 'stmt_live': L.root_live_names(), 'array_defs_out': L.array_defs_out_names(), 'is_array_init': L.is_array_init_map(), 'n_blocks': L.n_blocks}

class Dominators:

    def __cinit__(self):
        self.func = None
        self.n_blocks = 0
        self.idom = NULL
        self.tin = NULL
        self.tout = NULL
        self.pred_head = NULL
        self.pred_src = NULL
        self.child_head = NULL
        self.child_list = NULL

    def __dealloc__(self):
        free(self.idom)
        free(self.tin)
        free(self.tout)
        free(self.pred_head)
        free(self.pred_src)
        free(self.child_head)
        free(self.child_list)

    def dominates(self, a, b):
        return self.tin[a] <= self.tin[b] and self.tout[b] <= self.tout[a]

    def idom_map(self):
        d = {}
        b: 'int32_t'
        for b in range(self.n_blocks):
            d[b] = self.idom[b]
        return d

    def children_map(self):
        d = {}
        b: 'int32_t'
        k: 'int32_t'
        for b in range(self.n_blocks):
            d[b] = [self.child_list[k] for k in range(self.child_head[b], self.child_head[b + 1])]
        return d

    def dominates_q(self, a, b):
        return bool(self.dominates(__cast__('int32_t', a), __cast__('int32_t', b)))

def _dom_intersect(idom, a, b):
    while a != b:
        while a > b:
            a = idom[a]
        while b > a:
            b = idom[b]
    return a

def compute_dominators(func):
    D = Dominators()
    D.func = func
    nb = func.n_blocks
    ne = func.n_edges
    D.n_blocks = nb
    edges = func.edges
    i: 'int32_t'
    b: 'int32_t'
    e: 'int32_t'
    s: 'int32_t'
    p: 'int32_t'
    new_idom: 'int32_t'
    cur: 'int32_t'
    D.idom = __cast__('int32_t*', malloc(__cast__('unsigned size_t', nb if nb > 0 else 1) * __sizeof__(int32_t)))
    D.tin = __cast__('int32_t*', malloc(__cast__('unsigned size_t', nb if nb > 0 else 1) * __sizeof__(int32_t)))
    D.tout = __cast__('int32_t*', malloc(__cast__('unsigned size_t', nb if nb > 0 else 1) * __sizeof__(int32_t)))
    D.pred_head = __cast__('int32_t*', calloc(__cast__('unsigned size_t', nb + 1), __sizeof__(int32_t)))
    D.pred_src = __cast__('int32_t*', malloc(__cast__('unsigned size_t', ne if ne > 0 else 1) * __sizeof__(int32_t)))
    D.child_head = __cast__('int32_t*', calloc(__cast__('unsigned size_t', nb + 1), __sizeof__(int32_t)))
    D.child_list = __cast__('int32_t*', malloc(__cast__('unsigned size_t', nb if nb > 0 else 1) * __sizeof__(int32_t)))
    if D.idom == NULL or D.tin == NULL or D.tout == NULL or (D.pred_head == NULL) or (D.pred_src == NULL) or (D.child_head == NULL) or (D.child_list == NULL):
        raise MemoryError()
    cursor = __cast__('int32_t*', malloc(__cast__('unsigned size_t', nb if nb > 0 else 1) * __sizeof__(int32_t)))
    if cursor == NULL:
        raise MemoryError()
    for e in range(ne):
        D.pred_head[edges[e].dst + 1] += 1
    for b in range(nb):
        D.pred_head[b + 1] += D.pred_head[b]
    for b in range(nb):
        cursor[b] = D.pred_head[b]
    for e in range(ne):
        D.pred_src[cursor[edges[e].dst]] = edges[e].src
        cursor[edges[e].dst] += 1
    free(cursor)
    entry = func.entry_block
    for b in range(nb):
        D.idom[b] = -1
    D.idom[entry] = entry
    changed = True
    while changed:
        changed = False
        for b in range(nb):
            if b == entry:
                continue
            new_idom = -1
            for i in range(D.pred_head[b], D.pred_head[b + 1]):
                p = D.pred_src[i]
                if D.idom[p] == -1:
                    continue
                if new_idom == -1:
                    new_idom = p
                else:
                    new_idom = _dom_intersect(D.idom, p, new_idom)
            if new_idom != -1 and D.idom[b] != new_idom:
                D.idom[b] = new_idom
                changed = True
    for b in range(nb):
        func.blocks[b].idom = D.idom[b]
    for b in range(nb):
        if b != entry and D.idom[b] != -1:
            D.child_head[D.idom[b] + 1] += 1
    for b in range(nb):
        D.child_head[b + 1] += D.child_head[b]
    ccur = __cast__('int32_t*', malloc(__cast__('unsigned size_t', nb if nb > 0 else 1) * __sizeof__(int32_t)))
    if ccur == NULL:
        raise MemoryError()
    for b in range(nb):
        ccur[b] = D.child_head[b]
    for b in range(nb):
        if b != entry and D.idom[b] != -1:
            p = D.idom[b]
            D.child_list[ccur[p]] = b
            ccur[p] += 1
    free(ccur)
    for b in range(nb):
        D.tin[b] = -1
        D.tout[b] = -1
    stack = __cast__('int32_t*', malloc(__cast__('unsigned size_t', 2 * nb if nb > 0 else 1) * __sizeof__(int32_t)))
    it = __cast__('int32_t*', malloc(__cast__('unsigned size_t', nb if nb > 0 else 1) * __sizeof__(int32_t)))
    if stack == NULL or it == NULL:
        free(stack)
        free(it)
        raise MemoryError()
    timer = 0
    sp = 0
    for b in range(nb):
        it[b] = D.child_head[b]
    stack[sp] = entry
    sp += 1
    D.tin[entry] = timer
    timer += 1
    while sp > 0:
        cur = stack[sp - 1]
        if it[cur] < D.child_head[cur + 1]:
            s = D.child_list[it[cur]]
            it[cur] += 1
            D.tin[s] = timer
            timer += 1
            stack[sp] = s
            sp += 1
        else:
            D.tout[cur] = timer
            timer += 1
            sp -= 1
    free(stack)
    free(it)
    return D

def dominators_debug(entry, mode=None, callback=None):
    func = __cast__('Func', marshal_in(entry, mode, callback))
    func.verify()
    D = compute_dominators(func)
    return {'idom': D.idom_map(), 'children': D.children_map(), 'n_blocks': D.n_blocks, 'dominates': D.dominates_q}

class LoopForest:

    def __cinit__(self):
        self.func = None
        self.n_blocks = 0
        self.n_loops = 0
        self.nwb = 0
        self.depth = NULL
        self.innermost = NULL
        self.header = NULL
        self.parent = NULL
        self.loop_depth = NULL
        self.body = NULL

    def __dealloc__(self):
        free(self.depth)
        free(self.innermost)
        free(self.header)
        free(self.parent)
        free(self.loop_depth)
        free(self.body)

    def in_loop(self, loop_id, block):
        return bs_get(__addr__(self.body[__cast__('int64_t', loop_id) * self.nwb]), block)

    def crosses_loop(self, def_block, use_block):
        li = self.innermost[use_block]
        if li < 0:
            return False
        return not self.in_loop(li, def_block)

    def depth_map(self):
        d = {}
        b: 'int32_t'
        for b in range(self.n_blocks):
            d[b] = self.depth[b]
        return d

    def innermost_map(self):
        d = {}
        b: 'int32_t'
        for b in range(self.n_blocks):
            d[b] = self.innermost[b]
        return d

    def loops(self):
        out = []
        li: 'int32_t'
        b: 'int32_t'
        for li in range(self.n_loops):
            members = [b for b in range(self.n_blocks) if bs_get(__addr__(self.body[__cast__('int64_t', li) * self.nwb]), b)]
            out.append((self.header[li], self.parent[li], self.loop_depth[li], members))
        return out

    def crosses_loop_q(self, def_block, use_block):
        return bool(self.crosses_loop(__cast__('int32_t', def_block), __cast__('int32_t', use_block)))

def compute_loops(func, D):
    F = LoopForest()
    F.func = func
    nb = func.n_blocks
    ne = func.n_edges
    nwb = nb + 63 >> 6
    F.n_blocks = nb
    F.nwb = nwb
    edges = func.edges
    e: 'int32_t'
    b: 'int32_t'
    u: 'int32_t'
    h: 'int32_t'
    li: 'int32_t'
    lj: 'int32_t'
    p: 'int32_t'
    w: 'int32_t'
    is_header = __cast__('uint8_t*', calloc(__cast__('unsigned size_t', nb if nb > 0 else 1), __sizeof__(uint8_t)))
    if is_header == NULL:
        raise MemoryError()
    for e in range(ne):
        u = edges[e].src
        h = edges[e].dst
        if D.dominates(h, u):
            is_header[h] = 1
    n_loops = 0
    for b in range(nb):
        if is_header[b]:
            n_loops += 1
    F.n_loops = n_loops
    F.depth = __cast__('int32_t*', calloc(__cast__('unsigned size_t', nb if nb > 0 else 1), __sizeof__(int32_t)))
    F.innermost = __cast__('int32_t*', malloc(__cast__('unsigned size_t', nb if nb > 0 else 1) * __sizeof__(int32_t)))
    F.header = __cast__('int32_t*', malloc(__cast__('unsigned size_t', n_loops if n_loops > 0 else 1) * __sizeof__(int32_t)))
    F.parent = __cast__('int32_t*', malloc(__cast__('unsigned size_t', n_loops if n_loops > 0 else 1) * __sizeof__(int32_t)))
    F.loop_depth = __cast__('int32_t*', calloc(__cast__('unsigned size_t', n_loops if n_loops > 0 else 1), __sizeof__(int32_t)))
    F.body = __cast__('uint64_t*', calloc(__cast__('unsigned size_t', __cast__('int64_t', n_loops) * nwb if n_loops > 0 and nwb > 0 else 1), __sizeof__(uint64_t)))
    if F.depth == NULL or F.innermost == NULL or F.header == NULL or (F.parent == NULL) or (F.loop_depth == NULL) or (F.body == NULL):
        free(is_header)
        raise MemoryError()
    for b in range(nb):
        F.innermost[b] = -1
    loop_of_header = __cast__('int32_t*', malloc(__cast__('unsigned size_t', nb if nb > 0 else 1) * __sizeof__(int32_t)))
    if loop_of_header == NULL:
        free(is_header)
        raise MemoryError()
    for b in range(nb):
        loop_of_header[b] = -1
    li = 0
    for b in range(nb):
        if is_header[b]:
            loop_of_header[b] = li
            F.header[li] = b
            F.parent[li] = -1
            li += 1
    pred_head = __cast__('int32_t*', calloc(__cast__('unsigned size_t', nb + 1), __sizeof__(int32_t)))
    pred_src = __cast__('int32_t*', malloc(__cast__('unsigned size_t', ne if ne > 0 else 1) * __sizeof__(int32_t)))
    cursor = __cast__('int32_t*', malloc(__cast__('unsigned size_t', nb if nb > 0 else 1) * __sizeof__(int32_t)))
    stack = __cast__('int32_t*', malloc(__cast__('unsigned size_t', nb if nb > 0 else 1) * __sizeof__(int32_t)))
    if pred_head == NULL or pred_src == NULL or cursor == NULL or (stack == NULL):
        free(is_header)
        free(loop_of_header)
        free(pred_head)
        free(pred_src)
        free(cursor)
        free(stack)
        raise MemoryError()
    for e in range(ne):
        pred_head[edges[e].dst + 1] += 1
    for b in range(nb):
        pred_head[b + 1] += pred_head[b]
    for b in range(nb):
        cursor[b] = pred_head[b]
    for e in range(ne):
        pred_src[cursor[edges[e].dst]] = edges[e].src
        cursor[edges[e].dst] += 1
    lbody: 'uint64_t*'
    sp: 'int32_t'
    for e in range(ne):
        u = edges[e].src
        h = edges[e].dst
        if not D.dominates(h, u):
            continue
        li = loop_of_header[h]
        lbody = __addr__(F.body[__cast__('int64_t', li) * nwb])
        bs_set(lbody, h)
        if not bs_get(lbody, u):
            bs_set(lbody, u)
            sp = 0
            stack[sp] = u
            sp += 1
            while sp > 0:
                sp -= 1
                b = stack[sp]
                for p in range(pred_head[b], pred_head[b + 1]):
                    w = pred_src[p]
                    if not bs_get(lbody, w):
                        bs_set(lbody, w)
                        stack[sp] = w
                        sp += 1
    di: 'int32_t'
    for li in range(n_loops):
        di = 0
        for lj in range(n_loops):
            if bs_get(__addr__(F.body[__cast__('int64_t', lj) * nwb]), F.header[li]):
                di += 1
        F.loop_depth[li] = di
    best: 'int32_t'
    best_depth: 'int32_t'
    for li in range(n_loops):
        best = -1
        best_depth = 0
        for lj in range(n_loops):
            if lj == li:
                continue
            if bs_get(__addr__(F.body[__cast__('int64_t', lj) * nwb]), F.header[li]):
                if F.loop_depth[lj] > best_depth:
                    best_depth = F.loop_depth[lj]
                    best = lj
        F.parent[li] = best
    cnt: 'int32_t'
    bi: 'int32_t'
    for b in range(nb):
        cnt = 0
        best = -1
        best_depth = 0
        for li in range(n_loops):
            if bs_get(__addr__(F.body[__cast__('int64_t', li) * nwb]), b):
                cnt += 1
                if F.loop_depth[li] > best_depth:
                    best_depth = F.loop_depth[li]
                    best = li
        F.depth[b] = cnt
        F.innermost[b] = best
    free(is_header)
    free(loop_of_header)
    free(pred_head)
    free(pred_src)
    free(cursor)
    free(stack)
    return F

def loops_debug(entry, mode=None, callback=None):
    func = __cast__('Func', marshal_in(entry, mode, callback))
    func.verify()
    D = compute_dominators(func)
    F = compute_loops(func, D)
    return {'depth': F.depth_map(), 'innermost': F.innermost_map(), 'loops': F.loops(), 'n_blocks': F.n_blocks, 'n_loops': F.n_loops, 'crosses': F.crosses_loop_q}
