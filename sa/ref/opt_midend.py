from libc.stdint import int16_t, int32_t, int64_t, uint8_t, uint16_t, uint32_t, uint64_t
from libc.stdlib import calloc, free, malloc, realloc
from libc.string import memcpy
from libc.math import floor, isfinite, isinf, isnan, signbit
from sonolus.backend._opt.ir import BlockInfo, Edge, EDGE_COND_NONE, EDGE_COND_VALUE, FLAG_CONST_IS_INT, FLAG_PINNED, FLAG_PURE, FLAG_SIDE_EFFECT, FLAG_STMT_ROOT, Func, Instr, PlaceInfo, PLACE_DYNAMIC_BLOCK, PLACE_REAL_BLOCK, PLACE_TEMP_ARRAY, PLACE_TEMP_SCALAR, PLACE_TEMP_SIZE0, PLACE_RUNTIME_CONST, PLACE_WRITABLE, TempInfo
from sonolus.backend._opt._ops_gen import OPX_CONST, OPX_GET, OPX_PHI, OPX_SET, OPX_UNDEF, OP_Add, OP_And, OP_DecrementPostPointed, OP_DecrementPostShifted, OP_Divide, OP_Equal, OP_GetPointed, OP_GetShifted, OP_Greater, OP_GreaterOr, OP_IncrementPostPointed, OP_IncrementPostShifted, OP_Less, OP_LessOr, OP_Max, OP_Min, OP_Mod, OP_Multiply, OP_Negate, OP_Not, OP_NotEqual, OP_Or, OP_Power, OP_Rem, OP_RUNTIME_COUNT, OP_SetAddPointed, OP_SetAddShifted, OP_SetDividePointed, OP_SetDivideShifted, OP_SetModPointed, OP_SetModShifted, OP_SetMultiplyPointed, OP_SetMultiplyShifted, OP_SetPointed, OP_SetPowerPointed, OP_SetPowerShifted, OP_SetRemPointed, OP_SetRemShifted, OP_SetShifted, OP_SetSubtractPointed, OP_SetSubtractShifted, OP_Subtract, SONOLUS_OP_FOLDABLE
from sonolus.backend._opt.analysis import Dominators, LoopForest, compute_dominators, compute_loops
from sonolus.backend._opt.kernels import FOLD_OK, fold_op
from sonolus.backend._opt.ir import marshal_in as marshal_in, register_phase as register_phase, to_basic_blocks as to_basic_blocks

def _int32_block_const(d):
    return isfinite(d) and -2147483648.0 <= d <= 2147483647.0 and (d == __cast__('double', __cast__('int64_t', d)))

class _Cleaner:
    src: 'Func'
    phi_safe: 'bint'
    nb: 'int32_t'
    alive: 'uint8_t*'
    is_head: 'uint8_t*'
    nstmt: 'int32_t*'
    cn_src: 'int32_t*'
    cn_next: 'int32_t*'
    n_cn: 'int32_t'
    cap_cn: 'int32_t'
    chain_head: 'int32_t*'
    chain_tail: 'int32_t*'
    e_src: 'int32_t*'
    e_dst: 'int32_t*'
    e_ck: 'uint8_t*'
    e_ci: 'uint8_t*'
    e_cond: 'double*'
    e_alive: 'uint8_t*'
    n_e: 'int32_t'
    cap_e: 'int32_t'
    adj_edge: 'int32_t*'
    adj_next: 'int32_t*'
    n_adj: 'int32_t'
    cap_adj: 'int32_t'
    out_first: 'int32_t*'
    out_last: 'int32_t*'
    in_first: 'int32_t*'
    in_last: 'int32_t*'
    entry_head: 'int32_t'
    tailduped: 'uint8_t*'
    src_instrs: 'Instr*'
    src_blocks: 'BlockInfo*'
    src_consts: 'double*'

    def __cinit__(self, src, phi_safe):
        self.src = src
        self.src_instrs = src.instrs
        self.src_blocks = src.blocks
        self.src_consts = src.consts
        self.phi_safe = phi_safe
        self.nb = src.n_blocks
        self.alive = NULL
        self.is_head = NULL
        self.nstmt = NULL
        self.cn_src = NULL
        self.cn_next = NULL
        self.n_cn = 0
        self.cap_cn = 0
        self.chain_head = NULL
        self.chain_tail = NULL
        self.e_src = NULL
        self.e_dst = NULL
        self.e_ck = NULL
        self.e_ci = NULL
        self.e_cond = NULL
        self.e_alive = NULL
        self.n_e = 0
        self.cap_e = 0
        self.adj_edge = NULL
        self.adj_next = NULL
        self.n_adj = 0
        self.cap_adj = 0
        self.out_first = NULL
        self.out_last = NULL
        self.in_first = NULL
        self.in_last = NULL
        self.entry_head = src.entry_block
        self.tailduped = NULL
        self._build()

    def __dealloc__(self):
        free(self.alive)
        free(self.is_head)
        free(self.nstmt)
        free(self.cn_src)
        free(self.cn_next)
        free(self.chain_head)
        free(self.chain_tail)
        free(self.e_src)
        free(self.e_dst)
        free(self.e_ck)
        free(self.e_ci)
        free(self.e_cond)
        free(self.e_alive)
        free(self.adj_edge)
        free(self.adj_next)
        free(self.out_first)
        free(self.out_last)
        free(self.in_first)
        free(self.in_last)
        free(self.tailduped)

    def _ensure_edge_cap(self, need):
        if need <= self.cap_e:
            return
        nc = self.cap_e if self.cap_e > 0 else 8
        p_i32: 'int32_t*'
        p_u8: 'uint8_t*'
        p_dbl: 'double*'
        while nc < need:
            nc *= 2
        p_i32 = __cast__('int32_t*', realloc(self.e_src, __cast__('unsigned size_t', nc) * __sizeof__(int32_t)))
        if p_i32 == NULL:
            with __gil__:
                raise MemoryError()
        self.e_src = p_i32
        p_i32 = __cast__('int32_t*', realloc(self.e_dst, __cast__('unsigned size_t', nc) * __sizeof__(int32_t)))
        if p_i32 == NULL:
            with __gil__:
                raise MemoryError()
        self.e_dst = p_i32
        p_u8 = __cast__('uint8_t*', realloc(self.e_ck, __cast__('unsigned size_t', nc) * __sizeof__(uint8_t)))
        if p_u8 == NULL:
            with __gil__:
                raise MemoryError()
        self.e_ck = p_u8
        p_u8 = __cast__('uint8_t*', realloc(self.e_ci, __cast__('unsigned size_t', nc) * __sizeof__(uint8_t)))
        if p_u8 == NULL:
            with __gil__:
                raise MemoryError()
        self.e_ci = p_u8
        p_dbl = __cast__('double*', realloc(self.e_cond, __cast__('unsigned size_t', nc) * __sizeof__('double')))
        if p_dbl == NULL:
            with __gil__:
                raise MemoryError()
        self.e_cond = p_dbl
        p_u8 = __cast__('uint8_t*', realloc(self.e_alive, __cast__('unsigned size_t', nc) * __sizeof__(uint8_t)))
        if p_u8 == NULL:
            with __gil__:
                raise MemoryError()
        self.e_alive = p_u8
        self.cap_e = nc

    def _add_edge(self, s, d, ck, ci, cond):
        k = self.n_e
        self._ensure_edge_cap(k + 1)
        self.e_src[k] = s
        self.e_dst[k] = d
        self.e_ck[k] = ck
        self.e_ci[k] = ci
        self.e_cond[k] = cond
        self.e_alive[k] = 1
        self.n_e = k + 1
        self._push_out(s, k)
        self._push_in(d, k)

    def _adj_alloc(self, edge):
        k = self.n_adj
        nc: 'int32_t'
        p: 'int32_t*'
        if k + 1 > self.cap_adj:
            nc = self.cap_adj if self.cap_adj > 0 else 16
            while nc < k + 1:
                nc *= 2
            p = __cast__('int32_t*', realloc(self.adj_edge, __cast__('unsigned size_t', nc) * __sizeof__(int32_t)))
            if p == NULL:
                with __gil__:
                    raise MemoryError()
            self.adj_edge = p
            p = __cast__('int32_t*', realloc(self.adj_next, __cast__('unsigned size_t', nc) * __sizeof__(int32_t)))
            if p == NULL:
                with __gil__:
                    raise MemoryError()
            self.adj_next = p
            self.cap_adj = nc
        self.adj_edge[k] = edge
        self.adj_next[k] = -1
        self.n_adj = k + 1
        return k

    def _push_out(self, h, edge):
        node = self._adj_alloc(edge)
        if self.out_first[h] == -1:
            self.out_first[h] = node
        else:
            self.adj_next[self.out_last[h]] = node
        self.out_last[h] = node

    def _push_in(self, d, edge):
        node = self._adj_alloc(edge)
        if self.in_first[d] == -1:
            self.in_first[d] = node
        else:
            self.adj_next[self.in_last[d]] = node
        self.in_last[d] = node

    def _new_cn(self, src_block):
        k = self.n_cn
        nc: 'int32_t'
        p_i32: 'int32_t*'
        if k + 1 > self.cap_cn:
            nc = self.cap_cn if self.cap_cn > 0 else 8
            while nc < k + 1:
                nc *= 2
            p_i32 = __cast__('int32_t*', realloc(self.cn_src, __cast__('unsigned size_t', nc) * __sizeof__(int32_t)))
            if p_i32 == NULL:
                with __gil__:
                    raise MemoryError()
            self.cn_src = p_i32
            p_i32 = __cast__('int32_t*', realloc(self.cn_next, __cast__('unsigned size_t', nc) * __sizeof__(int32_t)))
            if p_i32 == NULL:
                with __gil__:
                    raise MemoryError()
            self.cn_next = p_i32
            self.cap_cn = nc
        self.cn_src[k] = src_block
        self.cn_next[k] = -1
        self.n_cn = k + 1
        return k

    def _build(self):
        src = self.src
        nb = self.nb
        b: 'int32_t'
        i: 'int32_t'
        node: 'int32_t'
        self.alive = __cast__('uint8_t*', calloc(nb, __sizeof__(uint8_t)))
        self.is_head = __cast__('uint8_t*', calloc(nb, __sizeof__(uint8_t)))
        self.nstmt = __cast__('int32_t*', calloc(nb, __sizeof__(int32_t)))
        self.chain_head = __cast__('int32_t*', malloc(__cast__('unsigned size_t', nb) * __sizeof__(int32_t)))
        self.chain_tail = __cast__('int32_t*', malloc(__cast__('unsigned size_t', nb) * __sizeof__(int32_t)))
        self.out_first = __cast__('int32_t*', malloc(__cast__('unsigned size_t', nb) * __sizeof__(int32_t)))
        self.out_last = __cast__('int32_t*', malloc(__cast__('unsigned size_t', nb) * __sizeof__(int32_t)))
        self.in_first = __cast__('int32_t*', malloc(__cast__('unsigned size_t', nb) * __sizeof__(int32_t)))
        self.in_last = __cast__('int32_t*', malloc(__cast__('unsigned size_t', nb) * __sizeof__(int32_t)))
        if not self.phi_safe:
            self.tailduped = __cast__('uint8_t*', calloc(__cast__('unsigned size_t', nb) * __cast__('unsigned size_t', nb), __sizeof__(uint8_t)))
            if self.tailduped == NULL:
                raise MemoryError()
        if self.alive == NULL or self.is_head == NULL or self.nstmt == NULL or (self.chain_head == NULL) or (self.chain_tail == NULL) or (self.out_first == NULL) or (self.out_last == NULL) or (self.in_first == NULL) or (self.in_last == NULL):
            raise MemoryError()
        for b in range(nb):
            self.nstmt[b] = 0
            for i in range(src.blocks[b].instr_start, src.blocks[b].instr_start + src.blocks[b].instr_count):
                if src.instrs[i].flags & FLAG_STMT_ROOT:
                    self.nstmt[b] += 1
            node = self._new_cn(b)
            self.chain_head[b] = node
            self.chain_tail[b] = node
            self.out_first[b] = -1
            self.out_last[b] = -1
            self.in_first[b] = -1
            self.in_last[b] = -1
        stack = __cast__('int32_t*', malloc(__cast__('unsigned size_t', nb) * __sizeof__(int32_t)))
        if stack == NULL:
            raise MemoryError()
        sp = 0
        cur: 'int32_t'
        d: 'int32_t'
        self.alive[self.entry_head] = 1
        stack[sp] = self.entry_head
        sp += 1
        while sp > 0:
            sp -= 1
            cur = stack[sp]
            for i in range(src.blocks[cur].edge_start, src.blocks[cur].edge_start + src.blocks[cur].edge_count):
                d = src.edges[i].dst
                if not self.alive[d]:
                    self.alive[d] = 1
                    stack[sp] = d
                    sp += 1
        free(stack)
        for b in range(nb):
            self.is_head[b] = self.alive[b]
        for i in range(src.n_edges):
            b = src.edges[i].src
            d = src.edges[i].dst
            if self.alive[b] and self.alive[d]:
                self._add_edge(b, d, src.edges[i].cond_kind, src.edges[i].cond_is_int, src.edges[i].cond)

    def _chain_nstmt(self, head):
        total = 0
        node = self.chain_head[head]
        while node != -1:
            total += self.nstmt[self.cn_src[node]]
            node = self.cn_next[node]
        return total

    def _append_chain_transfer(self, a, b):
        self.cn_next[self.chain_tail[a]] = self.chain_head[b]
        self.chain_tail[a] = self.chain_tail[b]

    def _append_chain_copy(self, a, b):
        node = self.chain_head[b]
        nn: 'int32_t'
        while node != -1:
            nn = self._new_cn(self.cn_src[node])
            self.cn_next[self.chain_tail[a]] = nn
            self.chain_tail[a] = nn
            node = self.cn_next[node]

    def _has_value_edge(self, h):
        node = self.out_first[h]
        i: 'int32_t'
        while node != -1:
            i = self.adj_edge[node]
            if self.e_alive[i] and self.e_src[i] == h and (self.e_ck[i] == EDGE_COND_VALUE):
                return True
            node = self.adj_next[node]
        return False

    def _single_none_succ(self, h, edge_out):
        node = self.out_first[h]
        i: 'int32_t'
        cnt = 0
        the = -1
        while node != -1:
            i = self.adj_edge[node]
            if self.e_alive[i] and self.e_src[i] == h:
                cnt += 1
                the = i
            node = self.adj_next[node]
        if cnt != 1 or self.e_ck[the] != EDGE_COND_NONE:
            return -1
        edge_out[0] = the
        return self.e_dst[the]

    def _const_fold(self):
        changed = False
        h: 'int32_t'
        i: 'int32_t'
        tv: 'int32_t'
        tail_block: 'int32_t'
        live_edge: 'int32_t'
        node: 'int32_t'
        tval: 'double'
        for h in range(self.nb):
            if not self.alive[h] or not self.is_head[h]:
                continue
            if not self._has_value_edge(h):
                continue
            tail_block = self.cn_src[self.chain_tail[h]]
            tv = self.src_blocks[tail_block].test_val
            if tv < 0 or self.src_instrs[tv].op != OPX_CONST:
                continue
            tval = self.src_consts[self.src_instrs[tv].aux]
            live_edge = -1
            node = self.out_first[h]
            while node != -1:
                i = self.adj_edge[node]
                if self.e_alive[i] and self.e_src[i] == h and (self.e_ck[i] == EDGE_COND_VALUE):
                    if self.e_cond[i] == tval:
                        live_edge = i
                        break
                node = self.adj_next[node]
            if live_edge == -1:
                node = self.out_first[h]
                while node != -1:
                    i = self.adj_edge[node]
                    if self.e_alive[i] and self.e_src[i] == h and (self.e_ck[i] == EDGE_COND_NONE):
                        live_edge = i
                        break
                    node = self.adj_next[node]
            node = self.out_first[h]
            while node != -1:
                i = self.adj_edge[node]
                if self.e_alive[i] and self.e_src[i] == h and (i != live_edge):
                    self.e_alive[i] = 0
                    changed = True
                node = self.adj_next[node]
            if live_edge != -1 and self.e_ck[live_edge] != EDGE_COND_NONE:
                self.e_ck[live_edge] = EDGE_COND_NONE
                self.e_ci[live_edge] = 0
                self.e_cond[live_edge] = 0.0
                changed = True
        return changed

    def _dedup(self):
        changed = False
        h: 'int32_t'
        i: 'int32_t'
        j: 'int32_t'
        default_dst: 'int32_t'
        node_i: 'int32_t'
        node_j: 'int32_t'
        for h in range(self.nb):
            if not self.alive[h] or not self.is_head[h]:
                continue
            default_dst = -1
            node_i = self.out_first[h]
            while node_i != -1:
                i = self.adj_edge[node_i]
                if self.e_alive[i] and self.e_src[i] == h and (self.e_ck[i] == EDGE_COND_NONE):
                    default_dst = self.e_dst[i]
                    break
                node_i = self.adj_next[node_i]
            if default_dst != -1:
                node_i = self.out_first[h]
                while node_i != -1:
                    i = self.adj_edge[node_i]
                    if self.e_alive[i] and self.e_src[i] == h and (self.e_ck[i] == EDGE_COND_VALUE) and (self.e_dst[i] == default_dst):
                        self.e_alive[i] = 0
                        changed = True
                    node_i = self.adj_next[node_i]
            node_i = self.out_first[h]
            while node_i != -1:
                i = self.adj_edge[node_i]
                if self.e_alive[i] and self.e_src[i] == h:
                    node_j = self.adj_next[node_i]
                    while node_j != -1:
                        j = self.adj_edge[node_j]
                        if self.e_alive[j] and self.e_src[j] == h and (self.e_ck[i] == self.e_ck[j]) and (self.e_ck[i] == EDGE_COND_NONE or self.e_cond[i] == self.e_cond[j]):
                            self.e_alive[j] = 0
                            changed = True
                        node_j = self.adj_next[node_j]
                node_i = self.adj_next[node_i]
        return changed

    def _thread_forwarders(self):
        changed = False
        h: 'int32_t'
        i: 'int32_t'
        the_edge: 'int32_t'
        c: 'int32_t'
        node: 'int32_t'
        for h in range(self.nb):
            if not self.alive[h] or not self.is_head[h]:
                continue
            if self._chain_nstmt(h) != 0:
                continue
            c = self._single_none_succ(h, __addr__(the_edge))
            if c == -1 or c == h:
                continue
            node = self.in_first[h]
            while node != -1:
                i = self.adj_edge[node]
                if self.e_alive[i] and self.e_dst[i] == h:
                    self.e_dst[i] = c
                    self._push_in(c, i)
                node = self.adj_next[node]
            if h == self.entry_head:
                self.entry_head = c
            self.e_alive[the_edge] = 0
            self.alive[h] = 0
            self.is_head[h] = 0
            changed = True
        return changed

    def _merge_single(self):
        changed = False
        h: 'int32_t'
        i: 'int32_t'
        the_edge: 'int32_t'
        c: 'int32_t'
        incnt: 'int32_t'
        node: 'int32_t'
        for h in range(self.nb):
            if not self.alive[h] or not self.is_head[h]:
                continue
            c = self._single_none_succ(h, __addr__(the_edge))
            if c == -1 or c == h or c == self.entry_head:
                continue
            incnt = 0
            node = self.in_first[c]
            while node != -1:
                i = self.adj_edge[node]
                if self.e_alive[i] and self.e_dst[i] == c:
                    incnt += 1
                node = self.adj_next[node]
            if incnt != 1:
                continue
            self.e_alive[the_edge] = 0
            self._append_chain_transfer(h, c)
            node = self.out_first[c]
            while node != -1:
                i = self.adj_edge[node]
                if self.e_alive[i] and self.e_src[i] == c:
                    self.e_src[i] = h
                    self._push_out(h, i)
                node = self.adj_next[node]
            self.alive[c] = 0
            self.is_head[c] = 0
            changed = True
        return changed

    def _taildup(self):
        changed = False
        h: 'int32_t'
        i: 'int32_t'
        the_edge: 'int32_t'
        c: 'int32_t'
        node: 'int32_t'
        if self.phi_safe:
            return False
        for h in range(self.nb):
            if not self.alive[h] or not self.is_head[h]:
                continue
            c = self._single_none_succ(h, __addr__(the_edge))
            if c == -1 or c == h or c == self.entry_head:
                continue
            if self._chain_nstmt(c) > 1:
                continue
            if self.tailduped[__cast__('unsigned size_t', h) * __cast__('unsigned size_t', self.nb) + __cast__('unsigned size_t', c)]:
                continue
            self.tailduped[__cast__('unsigned size_t', h) * __cast__('unsigned size_t', self.nb) + __cast__('unsigned size_t', c)] = 1
            self.e_alive[the_edge] = 0
            self._append_chain_copy(h, c)
            node = self.out_first[c]
            while node != -1:
                i = self.adj_edge[node]
                if self.e_alive[i] and self.e_src[i] == c:
                    self._add_edge(h, self.e_dst[i], self.e_ck[i], self.e_ci[i], self.e_cond[i])
                node = self.adj_next[node]
            changed = True
        return changed

    def _prune_unreachable(self):
        changed = False
        i: 'int32_t'
        cur: 'int32_t'
        d: 'int32_t'
        sp: 'int32_t'
        node: 'int32_t'
        visited = __cast__('uint8_t*', calloc(self.nb, __sizeof__(uint8_t)))
        stack = __cast__('int32_t*', malloc(__cast__('unsigned size_t', self.nb) * __sizeof__(int32_t)))
        if visited == NULL or stack == NULL:
            free(visited)
            free(stack)
            with __gil__:
                raise MemoryError()
        sp = 0
        visited[self.entry_head] = 1
        stack[sp] = self.entry_head
        sp += 1
        while sp > 0:
            sp -= 1
            cur = stack[sp]
            node = self.out_first[cur]
            while node != -1:
                i = self.adj_edge[node]
                if self.e_alive[i] and self.e_src[i] == cur:
                    d = self.e_dst[i]
                    if not visited[d]:
                        visited[d] = 1
                        stack[sp] = d
                        sp += 1
                node = self.adj_next[node]
        for i in range(self.nb):
            if self.alive[i] and self.is_head[i] and (not visited[i]):
                self.alive[i] = 0
                self.is_head[i] = 0
                changed = True
        for i in range(self.n_e):
            if self.e_alive[i] and (not visited[self.e_src[i]] or not visited[self.e_dst[i]]):
                self.e_alive[i] = 0
                changed = True
        free(visited)
        free(stack)
        return changed

    def _canonicalize_exits(self):
        changed = False
        order = self._rpo_order()
        first_exit = -1
        h: 'int32_t'
        i: 'int32_t'
        node: 'int32_t'
        has_out: 'bint'
        for h in order:
            if not self.alive[h] or not self.is_head[h]:
                continue
            has_out = False
            node = self.out_first[h]
            while node != -1:
                i = self.adj_edge[node]
                if self.e_alive[i] and self.e_src[i] == h:
                    has_out = True
                    break
                node = self.adj_next[node]
            if has_out or self._chain_nstmt(h) != 0:
                continue
            if first_exit == -1:
                first_exit = h
            else:
                node = self.in_first[h]
                while node != -1:
                    i = self.adj_edge[node]
                    if self.e_alive[i] and self.e_dst[i] == h:
                        self.e_dst[i] = first_exit
                        self._push_in(first_exit, i)
                    node = self.adj_next[node]
                self.alive[h] = 0
                self.is_head[h] = 0
                changed = True
        return changed

    def _sorted_succ(self, h):
        items = []
        node = self.out_first[h]
        i: 'int32_t'
        while node != -1:
            i = self.adj_edge[node]
            if self.e_alive[i] and self.e_src[i] == h:
                if self.e_ck[i] == EDGE_COND_NONE:
                    items.append((1, 0.0, self.e_dst[i]))
                else:
                    items.append((0, self.e_cond[i], self.e_dst[i]))
            node = self.adj_next[node]
        items.sort()
        return [it[2] for it in items]

    def _rpo_order(self):
        visited = __cast__('uint8_t*', calloc(self.nb, __sizeof__(uint8_t)))
        if visited == NULL:
            raise MemoryError()
        post = []
        node_stack = [self.entry_head]
        succ_stack = [self._sorted_succ(self.entry_head)]
        idx_stack = [0]
        depth: 'int32_t'
        node: 'int32_t'
        idx: 'int32_t'
        d: 'int32_t'
        slist: 'list'
        try:
            visited[self.entry_head] = 1
            while node_stack:
                depth = len(node_stack) - 1
                node = __cast__('int32_t', node_stack[depth])
                slist = __cast__('list', succ_stack[depth])
                idx = __cast__('int32_t', idx_stack[depth])
                if idx < len(slist):
                    idx_stack[depth] = idx + 1
                    d = __cast__('int32_t', slist[idx])
                    if not visited[d]:
                        visited[d] = 1
                        node_stack.append(d)
                        succ_stack.append(self._sorted_succ(d))
                        idx_stack.append(0)
                else:
                    post.append(node)
                    node_stack.pop()
                    succ_stack.pop()
                    idx_stack.pop()
        finally:
            free(visited)
        post.reverse()
        return post

    def run(self):
        changed = True
        iters = 0
        cap = __cast__('int64_t', self.nb) * self.nb + self.n_e + 100000
        while changed:
            changed = False
            with __nogil__:
                if self._const_fold():
                    changed = True
                if self._dedup():
                    changed = True
                if self._thread_forwarders():
                    changed = True
                if self._merge_single():
                    changed = True
                if self._taildup():
                    changed = True
                if self._prune_unreachable():
                    changed = True
            if self._canonicalize_exits():
                changed = True
            iters += 1
            if iters > cap:
                raise RuntimeError('cfg_cleanup did not converge')

    def _copy_place(self, dst, pid, k):
        p = __addr__(self.src.places[pid])
        new_block_ref = p.block_ref
        new_index_val = -1
        if p.kind == PLACE_DYNAMIC_BLOCK:
            new_block_ref = self._copy_value(dst, p.block_ref, k)
        if p.index_val >= 0:
            new_index_val = self._copy_value(dst, p.index_val, k)
        return _add_place(dst, p.kind, p.flags, new_block_ref, new_index_val, p.offset)

    def _copy_value(self, dst, vid, k):
        ins = __addr__(self.src.instrs[vid])
        op = ins.op
        flags = ins.flags
        pid: 'int32_t'
        j: 'int32_t'
        new_args: 'list'
        if op == OPX_CONST:
            return dst._emit(OPX_CONST, flags, k, ins.aux, [])
        if op == OPX_GET:
            pid = self._copy_place(dst, ins.aux, k)
            return dst._emit(OPX_GET, flags, k, pid, [])
        if op == OPX_SET:
            raise AssertionError('OPX_SET in value position')
        new_args = [self._copy_value(dst, __cast__('int32_t', self.src.args[ins.arg_start + j]), k) for j in range(ins.nargs)]
        return dst._emit(op, flags, k, -1, new_args)

    def _copy_stmt(self, dst, i, k):
        ins = __addr__(self.src.instrs[i])
        val: 'int32_t'
        pid: 'int32_t'
        if ins.op == OPX_SET:
            val = self._copy_value(dst, __cast__('int32_t', self.src.args[ins.arg_start]), k)
            pid = self._copy_place(dst, ins.aux, k)
            dst._emit(OPX_SET, ins.flags, k, pid, [val])
        else:
            self._copy_value(dst, i, k)

    def rebuild(self):
        src = self.src
        dst = Func()
        order = self._rpo_order()
        nb_out = len(order)
        k: 'int32_t'
        h: 'int32_t'
        node: 'int32_t'
        sb: 'int32_t'
        i: 'int32_t'
        tail_block: 'int32_t'
        pycond: 'object'
        dst.blocks = __cast__('BlockInfo*', malloc(__cast__('unsigned size_t', nb_out) * __sizeof__(BlockInfo)))
        if dst.blocks == NULL:
            raise MemoryError()
        dst.n_blocks = nb_out
        dst.cap_blocks = nb_out
        dst.entry_block = 0
        if src.n_consts > 0:
            dst.consts = __cast__('double*', malloc(__cast__('unsigned size_t', src.n_consts) * __sizeof__('double')))
            if dst.consts == NULL:
                raise MemoryError()
            memcpy(dst.consts, src.consts, __cast__('unsigned size_t', src.n_consts) * __sizeof__('double'))
        dst.n_consts = src.n_consts
        dst.cap_consts = src.n_consts
        dst._rebuild_const_intern()
        if src.n_temps > 0:
            dst.temps = __cast__('TempInfo*', malloc(__cast__('unsigned size_t', src.n_temps) * __sizeof__(TempInfo)))
            if dst.temps == NULL:
                raise MemoryError()
            memcpy(dst.temps, src.temps, __cast__('unsigned size_t', src.n_temps) * __sizeof__(TempInfo))
        dst.n_temps = src.n_temps
        dst.cap_temps = src.n_temps
        dst.names = list(src.names)
        dst._temp_intern = dict(src._temp_intern)
        dst._block_enum_by_id = dict(src._block_enum_by_id)
        dst.blocks_type = src.blocks_type
        dst.callback = src.callback
        dst._block_map = dict(src._block_map)
        head2idx = __cast__('int32_t*', malloc(__cast__('unsigned size_t', self.nb) * __sizeof__(int32_t)))
        if head2idx == NULL:
            raise MemoryError()
        for i in range(self.nb):
            head2idx[i] = -1
        for k in range(nb_out):
            head2idx[__cast__('int32_t', order[k])] = k
        for k in range(nb_out):
            h = __cast__('int32_t', order[k])
            dst.blocks[k].instr_start = dst.n_instrs
            dst.blocks[k].phi_start = 0
            dst.blocks[k].phi_count = 0
            dst.blocks[k].rpo = k
            dst.blocks[k].idom = -1
            node = self.chain_head[h]
            while node != -1:
                sb = self.cn_src[node]
                for i in range(src.blocks[sb].instr_start, src.blocks[sb].instr_start + src.blocks[sb].instr_count):
                    if src.instrs[i].flags & FLAG_STMT_ROOT:
                        self._copy_stmt(dst, i, k)
                node = self.cn_next[node]
            if self._has_value_edge(h):
                tail_block = self.cn_src[self.chain_tail[h]]
                if src.blocks[tail_block].test_val >= 0:
                    dst.blocks[k].test_val = self._copy_value(dst, src.blocks[tail_block].test_val, k)
                else:
                    dst.blocks[k].test_val = -1
            else:
                dst.blocks[k].test_val = -1
            dst.blocks[k].instr_count = dst.n_instrs - dst.blocks[k].instr_start
            dst.blocks[k].edge_start = dst.n_edges
            for edge_idx in self._sorted_edge_indices(h):
                i = __cast__('int32_t', edge_idx)
                if self.e_ck[i] == EDGE_COND_NONE:
                    pycond = None
                elif self.e_ci[i]:
                    pycond = int(self.e_cond[i])
                else:
                    pycond = float(self.e_cond[i])
                dst._push_edge(k, head2idx[self.e_dst[i]], pycond)
            dst.blocks[k].edge_count = dst.n_edges - dst.blocks[k].edge_start
        free(head2idx)
        return dst

    def _sorted_edge_indices(self, h):
        items = []
        node = self.out_first[h]
        i: 'int32_t'
        while node != -1:
            i = self.adj_edge[node]
            if self.e_alive[i] and self.e_src[i] == h:
                if self.e_ck[i] == EDGE_COND_NONE:
                    items.append((1, 0.0, i))
                else:
                    items.append((0, self.e_cond[i], i))
            node = self.adj_next[node]
        items.sort()
        return [it[2] for it in items]

def cfg_cleanup(func, phi_safe):
    if func.is_ssa:
        raise ValueError('cfg_cleanup requires non-SSA input; it is not phi-aware (phi_safe only disables tail-duplication, not phi handling)')
    cleaner = _Cleaner(func, phi_safe)
    cleaner.run()
    return cleaner.rebuild()

def cleanup_func(entry, mode=None, callback=None, phi_safe=False):
    func = marshal_in(entry, mode, callback)
    return cfg_cleanup(func, phi_safe)

def run_cfg_cleanup(entry, mode=None, callback=None, phi_safe=False):
    return to_basic_blocks(cleanup_func(entry, mode, callback, phi_safe))

class _SSABuilder:
    src: 'Func'
    nb: 'int32_t'
    entry: 'int32_t'
    val_op: 'list'
    val_flags: 'list'
    val_block: 'list'
    val_aux: 'list'
    val_args: 'list'
    val_dead: 'list'
    subst: 'dict'
    undef_widened: 'set'
    phi_users: 'dict'
    cur_def: 'dict'
    sealed: 'list'
    incomplete: 'list'
    block_phis: 'list'
    block_values: 'list'
    block_test: 'list'
    undef_val: 'int32_t'
    incoming: 'list'
    succs_distinct: 'list'
    unfilled_preds: 'list'
    sp_kind: 'list'
    sp_flags: 'list'
    sp_block_ref: 'list'
    sp_index_val: 'list'
    sp_offset: 'list'
    sp_intern: 'dict'

    def __cinit__(self, src):
        self.src = src
        self.nb = src.n_blocks
        self.entry = src.entry_block
        self.val_op = []
        self.val_flags = []
        self.val_block = []
        self.val_aux = []
        self.val_args = []
        self.val_dead = []
        self.subst = {}
        self.undef_widened = set()
        self.phi_users = {}
        self.cur_def = {}
        self.sealed = [False] * self.nb
        self.incomplete = [dict() for _ in range(self.nb)]
        self.block_phis = [[] for _ in range(self.nb)]
        self.block_values = [[] for _ in range(self.nb)]
        self.block_test = [-1] * self.nb
        self.undef_val = -1
        self.sp_kind = []
        self.sp_flags = []
        self.sp_block_ref = []
        self.sp_index_val = []
        self.sp_offset = []
        self.sp_intern = {}
        e: 'int32_t'
        b: 'int32_t'
        self.incoming = [[] for _ in range(self.nb)]
        for e in range(src.n_edges):
            self.incoming[src.edges[e].dst].append(e)
        succ_sets = [set() for _ in range(self.nb)]
        pred_sets = [set() for _ in range(self.nb)]
        for e in range(src.n_edges):
            succ_sets[src.edges[e].src].add(src.edges[e].dst)
            pred_sets[src.edges[e].dst].add(src.edges[e].src)
        self.succs_distinct = [sorted(s) for s in succ_sets]
        self.unfilled_preds = [len(pred_sets[b]) for b in range(self.nb)]

    def _new_val(self, op, flags, block, aux, args):
        vid = len(self.val_op)
        self.val_op.append(op)
        self.val_flags.append(flags)
        self.val_block.append(block)
        self.val_aux.append(aux)
        self.val_args.append(args)
        self.val_dead.append(False)
        if op == OPX_PHI:
            __cast__('list', self.block_phis[block]).append(vid)
        else:
            __cast__('list', self.block_values[block]).append(vid)
        return vid

    def _get_undef(self):
        if self.undef_val < 0:
            self.undef_val = len(self.val_op)
            self.val_op.append(OPX_UNDEF)
            self.val_flags.append(0)
            self.val_block.append(self.entry)
            self.val_aux.append(-1)
            self.val_args.append([])
            self.val_dead.append(False)
        return self.undef_val

    def _translate_place(self, pid, block):
        p = __addr__(self.src.places[pid])
        kind = p.kind
        flags = p.flags
        br = p.block_ref
        iv = p.index_val
        off = p.offset
        if kind == PLACE_DYNAMIC_BLOCK:
            br = self._translate(br, block)
        if iv >= 0:
            iv = self._translate(iv, block)
        key = (kind, flags, br, iv, off)
        cached = self.sp_intern.get(key)
        if cached is not None:
            return __cast__('int32_t', cached)
        spid = len(self.sp_kind)
        self.sp_kind.append(kind)
        self.sp_flags.append(flags)
        self.sp_block_ref.append(br)
        self.sp_index_val.append(iv)
        self.sp_offset.append(off)
        self.sp_intern[key] = spid
        return spid

    def _translate(self, src_vid, block):
        ins = __addr__(self.src.instrs[src_vid])
        op = ins.op
        pid: 'int32_t'
        kind: 'int32_t'
        temp: 'int32_t'
        spid: 'int32_t'
        astart: 'int32_t'
        nargs: 'int32_t'
        k: 'int32_t'
        args: 'list'
        if op == OPX_CONST:
            return self._new_val(OPX_CONST, ins.flags, block, ins.aux, [])
        if op == OPX_GET:
            pid = ins.aux
            kind = self.src.places[pid].kind
            if kind == PLACE_TEMP_SCALAR:
                temp = self.src.places[pid].block_ref
                return self._read_variable(temp, block)
            spid = self._translate_place(pid, block)
            return self._new_val(OPX_GET, ins.flags, block, spid, [])
        if op == OPX_SET:
            raise AssertionError('OPX_SET in value position')
        astart = ins.arg_start
        nargs = ins.nargs
        args = [self._translate(__cast__('int32_t', self.src.args[astart + k]), block) for k in range(nargs)]
        return self._new_val(op, ins.flags, block, -1, args)

    def _resolve(self, v):
        while v in self.subst:
            v = __cast__('int32_t', self.subst[v])
        return v

    def _write_variable(self, temp, block, v):
        self.cur_def[temp, block] = v

    def _new_phi(self, block, temp):
        return self._new_val(OPX_PHI, 0, block, temp, [])

    def _begin_read(self, temp, block):
        chain = []
        b = block
        val: 'int32_t'
        phi: 'int32_t'
        preds: 'list'
        cd: 'object'
        cb: 'int32_t'
        while True:
            cd = self.cur_def.get((temp, b))
            if cd is not None:
                val = self._resolve(__cast__('int32_t', cd))
                break
            if not __cast__('bint', self.sealed[b]):
                phi = self._new_phi(b, temp)
                __cast__('dict', self.incomplete[b])[temp] = phi
                self._write_variable(temp, b, phi)
                val = phi
                break
            preds = __cast__('list', self.incoming[b])
            if len(preds) == 0:
                val = self._get_undef()
                self._write_variable(temp, b, val)
                break
            if len(preds) == 1:
                chain.append(b)
                b = self.src.edges[__cast__('int32_t', preds[0])].src
                continue
            phi = self._new_phi(b, temp)
            self._write_variable(temp, b, phi)
            return (-1, [temp, phi, b, chain, preds, 0, []])
        for cb in chain:
            self._write_variable(temp, cb, val)
        return (val, None)

    def _read_variable(self, temp, block):
        res = self._begin_read(temp, block)
        if res[1] is None:
            return __cast__('int32_t', res[0])
        return self._drain(__cast__('list', res[1]))

    def _fill_phi(self, temp, phi):
        block = __cast__('int32_t', self.val_block[phi])
        preds = __cast__('list', self.incoming[block])
        self._drain([temp, phi, block, None, preds, 0, []])

    def _drain(self, root):
        stack = [root]
        have_val = 0
        child = 0
        f: 'list'
        chain: 'list'
        preds: 'list'
        ops: 'list'
        temp: 'int32_t'
        phi: 'int32_t'
        blk: 'int32_t'
        pidx: 'int32_t'
        e: 'int32_t'
        p: 'int32_t'
        cb: 'int32_t'
        val: 'int32_t'
        o: 'int32_t'
        ro: 'int32_t'
        res: 'object'
        suspended: 'bint'
        while stack:
            f = __cast__('list', stack[len(stack) - 1])
            temp = __cast__('int32_t', f[0])
            phi = __cast__('int32_t', f[1])
            blk = __cast__('int32_t', f[2])
            chain = f[3]
            preds = __cast__('list', f[4])
            pidx = __cast__('int32_t', f[5])
            ops = __cast__('list', f[6])
            if have_val:
                ops.append(child)
                have_val = 0
            suspended = False
            while pidx < len(preds):
                e = __cast__('int32_t', preds[pidx])
                p = self.src.edges[e].src
                res = self._begin_read(temp, p)
                if res[1] is None:
                    ops.append(__cast__('int32_t', res[0]))
                    pidx += 1
                    continue
                f[5] = pidx + 1
                stack.append(__cast__('list', res[1]))
                suspended = True
                break
            if suspended:
                continue
            self.val_args[phi] = ops
            for o in ops:
                ro = self._resolve(o)
                s = self.phi_users.get(ro)
                if s is None:
                    s = set()
                    self.phi_users[ro] = s
                s.add(phi)
            self._try_remove_trivial(phi)
            if chain is not None:
                val = self._resolve(phi)
                self._write_variable(temp, blk, val)
                for cb in chain:
                    self._write_variable(temp, cb, val)
                child = val
            else:
                child = phi
            have_val = 1
            stack.pop()
        return child

    def _try_remove_trivial(self, phi):
        worklist = [phi]
        p: 'int32_t'
        o: 'int32_t'
        r: 'int32_t'
        same: 'int32_t'
        u: 'int32_t'
        trivial: 'bint'
        while worklist:
            p = __cast__('int32_t', worklist.pop())
            if __cast__('bint', self.val_dead[p]):
                continue
            if __cast__('int32_t', self.val_op[p]) != OPX_PHI:
                continue
            same = -1
            trivial = True
            for o in __cast__('list', self.val_args[p]):
                r = self._resolve(__cast__('int32_t', o))
                if r == p or r == same:
                    continue
                if same != -1:
                    trivial = False
                    break
                same = r
            if not trivial:
                continue
            if same == -1:
                same = self._get_undef()
            self.subst[p] = same
            self.val_dead[p] = True
            users = self.phi_users.get(p)
            if users:
                su = self.phi_users.get(same)
                if su is None:
                    su = set()
                    self.phi_users[same] = su
                for u in users:
                    if u == p:
                        continue
                    su.add(u)
                    if not __cast__('bint', self.val_dead[u]) and __cast__('int32_t', self.val_op[u]) == OPX_PHI:
                        worklist.append(u)

    def _seal(self, block):
        self.sealed[block] = True
        inc = __cast__('dict', self.incomplete[block])
        items = list(inc.items())
        inc.clear()
        temp: 'int32_t'
        phi: 'int32_t'
        for temp, phi in items:
            self._fill_phi(temp, phi)

    def _fill(self, block):
        istart = self.src.blocks[block].instr_start
        icount = self.src.blocks[block].instr_count
        i: 'int32_t'
        op: 'int32_t'
        pid: 'int32_t'
        kind: 'int32_t'
        rhs: 'int32_t'
        v: 'int32_t'
        temp: 'int32_t'
        spid: 'int32_t'
        tv: 'int32_t'
        for i in range(istart, istart + icount):
            if not self.src.instrs[i].flags & FLAG_STMT_ROOT:
                continue
            op = self.src.instrs[i].op
            if op == OPX_SET:
                pid = self.src.instrs[i].aux
                kind = self.src.places[pid].kind
                rhs = __cast__('int32_t', self.src.args[self.src.instrs[i].arg_start])
                v = self._translate(rhs, block)
                if kind == PLACE_TEMP_SCALAR:
                    temp = self.src.places[pid].block_ref
                    self._write_variable(temp, block, v)
                else:
                    spid = self._translate_place(pid, block)
                    self._new_val(OPX_SET, FLAG_SIDE_EFFECT | FLAG_PINNED | FLAG_STMT_ROOT, block, spid, [v])
            else:
                v = self._translate(i, block)
                self.val_flags[v] = __cast__('int32_t', self.val_flags[v]) | FLAG_STMT_ROOT
        tv = self.src.blocks[block].test_val
        if tv >= 0:
            self.block_test[block] = self._translate(tv, block)
        else:
            self.block_test[block] = -1

    def _run(self):
        b: 'int32_t'
        s: 'int32_t'
        for b in range(self.nb):
            if __cast__('int32_t', self.unfilled_preds[b]) == 0:
                self._seal(b)
        for b in range(self.nb):
            self._fill(b)
            for s in __cast__('list', self.succs_distinct[b]):
                self.unfilled_preds[s] = __cast__('int32_t', self.unfilled_preds[s]) - 1
                if __cast__('int32_t', self.unfilled_preds[s]) == 0 and (not __cast__('bint', self.sealed[s])):
                    self._seal(__cast__('int32_t', s))

    def _compact(self):
        src = self.src
        dst = Func()
        nb = self.nb
        b: 'int32_t'
        v: 'int32_t'
        ni: 'int32_t'
        k: 'int32_t'
        o: 'int32_t'
        order = [[] for _ in range(nb)]
        ob: 'list'
        for b in range(nb):
            ob = order[b]
            if b == self.entry and self.undef_val >= 0:
                ob.append(self.undef_val)
            for v in __cast__('list', self.block_phis[b]):
                if not __cast__('bint', self.val_dead[v]):
                    ob.append(v)
            for v in __cast__('list', self.block_values[b]):
                if not __cast__('bint', self.val_dead[v]):
                    ob.append(v)
        newidx = {}
        block_start = [0] * nb
        next_idx = 0
        total_args = 0
        for b in range(nb):
            block_start[b] = next_idx
            for v in __cast__('list', order[b]):
                newidx[v] = next_idx
                next_idx += 1
                total_args += len(__cast__('list', self.val_args[v]))
        total_instrs = next_idx
        npl = len(self.sp_kind)
        spid: 'int32_t'
        kind: 'int32_t'
        br: 'int32_t'
        iv: 'int32_t'
        for spid in range(npl):
            kind = __cast__('int32_t', self.sp_kind[spid])
            br = __cast__('int32_t', self.sp_block_ref[spid])
            iv = __cast__('int32_t', self.sp_index_val[spid])
            if kind == PLACE_DYNAMIC_BLOCK:
                br = __cast__('int32_t', newidx[self._resolve(br)])
            if iv >= 0:
                iv = __cast__('int32_t', newidx[self._resolve(iv)])
            _add_place(dst, __cast__('uint8_t', kind), __cast__('uint8_t', self.sp_flags[spid]), br, iv, __cast__('int32_t', self.sp_offset[spid]))
        if src.n_consts > 0:
            dst.consts = __cast__('double*', malloc(__cast__('unsigned size_t', src.n_consts) * __sizeof__('double')))
            if dst.consts == NULL:
                raise MemoryError()
            memcpy(dst.consts, src.consts, __cast__('unsigned size_t', src.n_consts) * __sizeof__('double'))
        dst.n_consts = src.n_consts
        dst.cap_consts = src.n_consts
        dst._rebuild_const_intern()
        if src.n_temps > 0:
            dst.temps = __cast__('TempInfo*', malloc(__cast__('unsigned size_t', src.n_temps) * __sizeof__(TempInfo)))
            if dst.temps == NULL:
                raise MemoryError()
            memcpy(dst.temps, src.temps, __cast__('unsigned size_t', src.n_temps) * __sizeof__(TempInfo))
        dst.n_temps = src.n_temps
        dst.cap_temps = src.n_temps
        dst.names = list(src.names)
        dst._temp_intern = dict(src._temp_intern)
        dst._block_enum_by_id = dict(src._block_enum_by_id)
        dst.blocks_type = src.blocks_type
        dst.callback = src.callback
        dst._block_map = dict(src._block_map)
        dst.blocks = __cast__('BlockInfo*', malloc(__cast__('unsigned size_t', nb if nb > 0 else 1) * __sizeof__(BlockInfo)))
        if dst.blocks == NULL:
            raise MemoryError()
        dst.n_blocks = nb
        dst.cap_blocks = nb
        dst.entry_block = self.entry
        dst.is_ssa = True
        dst.instrs = __cast__('Instr*', malloc(__cast__('unsigned size_t', total_instrs if total_instrs > 0 else 1) * __sizeof__(Instr)))
        dst.args = __cast__('uint32_t*', malloc(__cast__('unsigned size_t', total_args if total_args > 0 else 1) * __sizeof__(uint32_t)))
        if dst.instrs == NULL or dst.args == NULL:
            raise MemoryError()
        dst.n_instrs = total_instrs
        dst.cap_instrs = total_instrs
        dst.n_args = total_args
        dst.cap_args = total_args
        arg_cursor = 0
        op: 'int32_t'
        flags: 'int32_t'
        aux: 'int32_t'
        nargs: 'int32_t'
        nphi: 'int32_t'
        tv: 'int32_t'
        phi_first: 'int32_t'
        raw_args: 'list'
        for b in range(nb):
            ob = order[b]
            dst.blocks[b].instr_start = __cast__('int32_t', block_start[b])
            dst.blocks[b].instr_count = len(ob)
            dst.blocks[b].rpo = b
            dst.blocks[b].idom = -1
            nphi = 0
            phi_first = -1
            for v in ob:
                if __cast__('int32_t', self.val_op[v]) == OPX_PHI:
                    if phi_first == -1:
                        phi_first = __cast__('int32_t', newidx[v])
                    nphi += 1
            dst.blocks[b].phi_count = nphi
            dst.blocks[b].phi_start = phi_first if phi_first != -1 else dst.blocks[b].instr_start
            for v in ob:
                ni = __cast__('int32_t', newidx[v])
                op = __cast__('int32_t', self.val_op[v])
                flags = __cast__('int32_t', self.val_flags[v])
                aux = __cast__('int32_t', self.val_aux[v])
                raw_args = __cast__('list', self.val_args[v])
                nargs = len(raw_args)
                if nargs > 32767:
                    raise ValueError(f'instruction operand count {nargs} exceeds the int16 limit (32767); the arena stores nargs as int16')
                dst.instrs[ni].op = __cast__('uint16_t', op)
                dst.instrs[ni].flags = __cast__('uint8_t', flags)
                dst.instrs[ni].block = b
                dst.instrs[ni].arg_start = arg_cursor
                dst.instrs[ni].nargs = __cast__('int16_t', nargs)
                dst.instrs[ni].aux = aux
                for o in raw_args:
                    dst.args[arg_cursor] = __cast__('uint32_t', __cast__('int32_t', newidx[self._resolve(__cast__('int32_t', o))]))
                    arg_cursor += 1
            tv = __cast__('int32_t', self.block_test[b])
            if tv >= 0:
                dst.blocks[b].test_val = __cast__('int32_t', newidx[self._resolve(tv)])
            else:
                dst.blocks[b].test_val = -1
        dst.edges = __cast__('Edge*', malloc(__cast__('unsigned size_t', src.n_edges if src.n_edges > 0 else 1) * __sizeof__(Edge)))
        if dst.edges == NULL:
            raise MemoryError()
        if src.n_edges > 0:
            memcpy(dst.edges, src.edges, __cast__('unsigned size_t', src.n_edges) * __sizeof__(Edge))
        dst.n_edges = src.n_edges
        dst.cap_edges = src.n_edges
        for b in range(nb):
            dst.blocks[b].edge_start = src.blocks[b].edge_start
            dst.blocks[b].edge_count = src.blocks[b].edge_count
        dst.undef_val = __cast__('int32_t', newidx[self.undef_val]) if self.undef_val >= 0 else -1
        widened = set()
        wv: 'int32_t'
        for wv in self.undef_widened:
            widened.add(__cast__('int32_t', newidx[self._resolve(wv)]))
        dst._ssa_undef = widened
        compute_dominators(dst)
        return dst

def _grow_places(buf, cap, need):
    nc: 'int32_t'
    p: 'PlaceInfo*'
    if need <= cap[0]:
        return buf
    nc = cap[0] if cap[0] > 0 else 8
    while nc < need:
        nc *= 2
    p = __cast__('PlaceInfo*', realloc(buf, __cast__('unsigned size_t', nc) * __sizeof__(PlaceInfo)))
    if p == NULL:
        raise MemoryError()
    cap[0] = nc
    return p

def _add_place(dst, kind, flags, block_ref, index_val, offset):
    pid = dst.n_places
    dst.places = _grow_places(dst.places, __addr__(dst.cap_places), pid + 1)
    dst.places[pid].kind = kind
    dst.places[pid].flags = flags
    dst.places[pid].block_ref = block_ref
    dst.places[pid].index_val = index_val
    dst.places[pid].offset = offset
    dst.n_places = pid + 1
    return pid

def build_ssa(func):
    builder = _SSABuilder(func)
    builder._run()
    return builder._compact()

def run_ssa(entry, mode=None, callback=None):
    func = cfg_cleanup(__cast__('Func', marshal_in(entry, mode, callback)), False)
    ssa = build_ssa(func)
    ssa.verify()
    return to_basic_blocks(ssa)

def _seq_parallel_copies(copies, make_fresh):
    pcopy = [(d, s) for d, s in copies if d != s]
    result = []
    if not pcopy:
        return result
    src_set = set((s for _d, s in pcopy))
    loc = {}
    pred = {}
    to_do = []
    for d, s in pcopy:
        loc[s] = s
        pred[d] = s
        to_do.append(d)
    ready = [d for d, s in pcopy if d not in src_set]
    while to_do:
        while ready:
            d = ready.pop()
            if d not in pred:
                continue
            s = pred[d]
            c = loc[s]
            result.append((d, c))
            loc[s] = d
            del pred[d]
            if s == c and s in pred:
                ready.append(s)
        if not to_do:
            break
        d = to_do.pop()
        if d not in pred:
            continue
        if loc[pred[d]] != d:
            n = make_fresh()
            result.append((n, d))
            loc[d] = n
            ready.append(d)
        else:
            del pred[d]
    return result

def _grow_temps(buf, cap, need):
    nc: 'int32_t'
    p: 'TempInfo*'
    if need <= cap[0]:
        return buf
    nc = cap[0] if cap[0] > 0 else 8
    while nc < need:
        nc *= 2
    p = __cast__('TempInfo*', realloc(buf, __cast__('unsigned size_t', nc) * __sizeof__(TempInfo)))
    if p == NULL:
        raise MemoryError()
    cap[0] = nc
    return p

class _UnSSA:
    src: 'Func'
    dst: 'Func'
    nb: 'int32_t'
    n_out: 'int32_t'
    use_count: 'list'
    inline_ok: 'list'
    materialize: 'list'
    drop: 'list'
    value_temp: 'list'
    incoming: 'list'
    edge_pos: 'list'
    distinct_succ: 'list'
    edge_split: 'list'
    split_edge: 'list'
    array_temp_map: 'dict'
    scalar_place: 'dict'
    undef_temp: 'int32_t'
    undef_place: 'int32_t'
    name_counter: 'int32_t'

    def __cinit__(self, src):
        self.src = src
        self.dst = Func()
        self.nb = src.n_blocks
        self.array_temp_map = {}
        self.scalar_place = {}
        self.undef_temp = -1
        self.undef_place = -1
        self.name_counter = 0
        ni = src.n_instrs
        self.use_count = [0] * ni
        self.inline_ok = [True] * ni
        self.materialize = [False] * ni
        self.drop = [False] * ni
        self.value_temp = [-1] * ni
        e: 'int32_t'
        b: 'int32_t'
        self.incoming = [[] for _ in range(self.nb)]
        self.edge_pos = [0] * src.n_edges
        for e in range(src.n_edges):
            lst = __cast__('list', self.incoming[src.edges[e].dst])
            self.edge_pos[e] = len(lst)
            lst.append(e)
        ss = [set() for _ in range(self.nb)]
        for e in range(src.n_edges):
            __cast__('set', ss[src.edges[e].src]).add(src.edges[e].dst)
        self.distinct_succ = [sorted(s) for s in ss]
        self.edge_split = [-1] * src.n_edges
        self.split_edge = []

    def _record_use(self, v, ublock, is_phi):
        self.use_count[v] = __cast__('int32_t', self.use_count[v]) + 1
        if is_phi or __cast__('int32_t', self.use_count[v]) > 1 or ublock != __cast__('int32_t', self.src.instrs[v].block):
            self.inline_ok[v] = False

    def _gen_place_uses(self, pid, ublock):
        kind = self.src.places[pid].kind
        if kind == PLACE_DYNAMIC_BLOCK:
            self._record_use(self.src.places[pid].block_ref, ublock, False)
        if self.src.places[pid].index_val >= 0:
            self._record_use(self.src.places[pid].index_val, ublock, False)

    def _analyze(self):
        src = self.src
        i: 'int32_t'
        b: 'int32_t'
        op: 'int32_t'
        k: 'int32_t'
        astart: 'int32_t'
        nargs: 'int32_t'
        e: 'int32_t'
        for i in range(src.n_instrs):
            op = src.instrs[i].op
            b = src.instrs[i].block
            if op == OPX_PHI:
                astart = src.instrs[i].arg_start
                for k in range(src.instrs[i].nargs):
                    e = __cast__('int32_t', __cast__('list', self.incoming[b])[k])
                    self._record_use(__cast__('int32_t', src.args[astart + k]), src.edges[e].src, True)
                continue
            if op == OPX_UNDEF or op == OPX_CONST:
                continue
            astart = src.instrs[i].arg_start
            nargs = src.instrs[i].nargs
            for k in range(nargs):
                self._record_use(__cast__('int32_t', src.args[astart + k]), b, False)
            if op == OPX_GET or op == OPX_SET:
                self._gen_place_uses(src.instrs[i].aux, b)
        for b in range(src.n_blocks):
            if src.blocks[b].test_val >= 0:
                self._record_use(src.blocks[b].test_val, b, False)
        flags: 'int32_t'
        pure: 'bint'
        side: 'bint'
        pinned: 'bint'
        inlinable: 'bint'
        for i in range(src.n_instrs):
            op = src.instrs[i].op
            if op == OPX_PHI or op == OPX_UNDEF or op == OPX_CONST:
                continue
            if src.instrs[i].flags & FLAG_STMT_ROOT:
                continue
            flags = src.instrs[i].flags
            side = flags & FLAG_SIDE_EFFECT != 0
            pinned = flags & FLAG_PINNED != 0
            pure = flags & FLAG_PURE != 0
            if __cast__('int32_t', self.use_count[i]) == 0 and (not side):
                self.drop[i] = True
                continue
            inlinable = pure and (not pinned) and (not side) and (__cast__('int32_t', self.use_count[i]) == 1) and __cast__('bint', self.inline_ok[i])
            self.materialize[i] = not inlinable

    def _new_temp(self, size):
        dst = self.dst
        tid = dst.n_temps
        dst.temps = _grow_temps(dst.temps, __addr__(dst.cap_temps), tid + 1)
        name_id = len(dst.names)
        dst.names.append(f's{self.name_counter}')
        self.name_counter += 1
        dst.temps[tid].name_id = name_id
        dst.temps[tid].size = size
        dst.n_temps = tid + 1
        return tid

    def _scalar_place_of(self, temp):
        cached = self.scalar_place.get(temp)
        if cached is not None:
            return __cast__('int32_t', cached)
        pid = _add_place(self.dst, PLACE_TEMP_SCALAR, PLACE_WRITABLE, temp, -1, 0)
        self.scalar_place[temp] = pid
        return pid

    def _get_undef_place(self):
        if self.undef_place < 0:
            self.undef_temp = self._new_temp(1)
            self.undef_place = self._scalar_place_of(self.undef_temp)
        return self.undef_place

    def _map_array_temp(self, old):
        cached = self.array_temp_map.get(old)
        if cached is not None:
            return __cast__('int32_t', cached)
        dst = self.dst
        tid = dst.n_temps
        dst.temps = _grow_temps(dst.temps, __addr__(dst.cap_temps), tid + 1)
        name_id = len(dst.names)
        dst.names.append(self.src.names[self.src.temps[old].name_id])
        dst.temps[tid].name_id = name_id
        dst.temps[tid].size = self.src.temps[old].size
        dst.n_temps = tid + 1
        self.array_temp_map[old] = tid
        return tid

    def _new_place(self, src_pid, block):
        src = self.src
        kind = src.places[src_pid].kind
        flags = src.places[src_pid].flags
        br = src.places[src_pid].block_ref
        iv = src.places[src_pid].index_val
        off = src.places[src_pid].offset
        if kind == PLACE_TEMP_ARRAY or kind == PLACE_TEMP_SIZE0:
            br = self._map_array_temp(br)
        elif kind == PLACE_DYNAMIC_BLOCK:
            if src.instrs[br].op == OPX_CONST and _int32_block_const(src.consts[src.instrs[br].aux]):
                kind = PLACE_REAL_BLOCK
                flags = 0
                br = __cast__('int32_t', __cast__('int64_t', src.consts[src.instrs[br].aux]))
            else:
                br = self._emit_ref(br, block)
        if iv >= 0:
            iv = self._emit_ref(iv, block)
        return _add_place(self.dst, __cast__('uint8_t', kind), __cast__('uint8_t', flags), br, iv, off)

    def _emit_ref(self, v, block):
        src = self.src
        op = src.instrs[v].op
        if op == OPX_CONST:
            return self.dst._emit(OPX_CONST, src.instrs[v].flags, block, src.instrs[v].aux, [])
        if op == OPX_UNDEF:
            return self.dst._emit(OPX_GET, FLAG_PINNED, block, self._get_undef_place(), [])
        if op == OPX_PHI or __cast__('bint', self.materialize[v]):
            return self.dst._emit(OPX_GET, FLAG_PINNED, block, self._scalar_place_of(__cast__('int32_t', self.value_temp[v])), [])
        return self._emit_tree(v, block)

    def _emit_tree(self, v, block):
        src = self.src
        op = src.instrs[v].op
        astart: 'int32_t'
        nargs: 'int32_t'
        k: 'int32_t'
        pid: 'int32_t'
        args: 'list'
        if op == OPX_GET:
            pid = self._new_place(src.instrs[v].aux, block)
            return self.dst._emit(OPX_GET, src.instrs[v].flags, block, pid, [])
        astart = src.instrs[v].arg_start
        nargs = src.instrs[v].nargs
        args = [self._emit_ref(__cast__('int32_t', src.args[astart + k]), block) for k in range(nargs)]
        return self.dst._emit(op, src.instrs[v].flags, block, -1, args)

    def _make_cycle_temp(self):
        return self._new_temp(1)

    def _emit_copies(self, edge, block):
        src = self.src
        d = src.edges[edge].dst
        k = __cast__('int32_t', self.edge_pos[edge])
        pstart = src.blocks[d].phi_start
        pcount = src.blocks[d].phi_count
        pi: 'int32_t'
        operand: 'int32_t'
        opnd_op: 'int32_t'
        dtemp: 'int32_t'
        copies = []
        for pi in range(pstart, pstart + pcount):
            operand = __cast__('int32_t', src.args[src.instrs[pi].arg_start + k])
            opnd_op = src.instrs[operand].op
            if opnd_op == OPX_CONST:
                skey = ('c', src.instrs[operand].aux, __cast__('int32_t', src.instrs[operand].flags))
            elif opnd_op == OPX_UNDEF:
                skey = ('u',)
            else:
                skey = __cast__('int32_t', self.value_temp[operand])
            dtemp = __cast__('int32_t', self.value_temp[pi])
            copies.append((dtemp, skey))
        seq = _seq_parallel_copies(copies, self._make_cycle_temp)
        ref: 'int32_t'
        dplace: 'int32_t'
        for dtemp, skey in seq:
            dplace = self._scalar_place_of(__cast__('int32_t', dtemp))
            if isinstance(skey, tuple):
                if skey[0] == 'c':
                    ref = self.dst._emit(OPX_CONST, __cast__('int32_t', skey[2]), block, __cast__('int32_t', skey[1]), [])
                else:
                    ref = self.dst._emit(OPX_GET, FLAG_PINNED, block, self._get_undef_place(), [])
            else:
                ref = self.dst._emit(OPX_GET, FLAG_PINNED, block, self._scalar_place_of(__cast__('int32_t', skey)), [])
            self.dst._emit(OPX_SET, FLAG_SIDE_EFFECT | FLAG_PINNED | FLAG_STMT_ROOT, block, dplace, [ref])

    def _plan(self):
        src = self.src
        i: 'int32_t'
        op: 'int32_t'
        b: 'int32_t'
        e: 'int32_t'
        d: 'int32_t'
        for i in range(src.n_instrs):
            op = src.instrs[i].op
            if op == OPX_PHI:
                self.value_temp[i] = self._new_temp(1)
            elif op == OPX_CONST or op == OPX_UNDEF:
                continue
            elif src.instrs[i].flags & FLAG_STMT_ROOT:
                continue
            elif __cast__('bint', self.materialize[i]):
                self.value_temp[i] = self._new_temp(1)
        self.n_out = self.nb
        for b in range(src.n_blocks):
            for e in range(src.blocks[b].edge_start, src.blocks[b].edge_start + src.blocks[b].edge_count):
                d = src.edges[e].dst
                if src.blocks[d].phi_count > 0 and (len(__cast__('list', self.distinct_succ[b])) > 1 or d == b or src.blocks[b].test_val >= 0):
                    self.edge_split[e] = self.n_out
                    self.split_edge.append(e)
                    self.n_out += 1

    def build(self):
        src = self.src
        dst = self.dst
        self._analyze()
        self._plan()
        if src.n_consts > 0:
            dst.consts = __cast__('double*', malloc(__cast__('unsigned size_t', src.n_consts) * __sizeof__('double')))
            if dst.consts == NULL:
                raise MemoryError()
            memcpy(dst.consts, src.consts, __cast__('unsigned size_t', src.n_consts) * __sizeof__('double'))
        dst.n_consts = src.n_consts
        dst.cap_consts = src.n_consts
        dst._rebuild_const_intern()
        dst._block_enum_by_id = dict(src._block_enum_by_id)
        dst.blocks_type = src.blocks_type
        dst.callback = src.callback
        dst._block_map = dict(src._block_map)
        dst.is_ssa = False
        n_out = self.n_out
        dst.blocks = __cast__('BlockInfo*', malloc(__cast__('unsigned size_t', n_out if n_out > 0 else 1) * __sizeof__(BlockInfo)))
        if dst.blocks == NULL:
            raise MemoryError()
        dst.n_blocks = n_out
        dst.cap_blocks = n_out
        dst.entry_block = src.entry_block
        b: 'int32_t'
        i: 'int32_t'
        op: 'int32_t'
        istart: 'int32_t'
        tv: 'int32_t'
        di: 'int32_t'
        e: 'int32_t'
        for b in range(self.nb):
            istart = dst.n_instrs
            dst.blocks[b].instr_start = istart
            dst.blocks[b].phi_start = 0
            dst.blocks[b].phi_count = 0
            dst.blocks[b].rpo = b
            dst.blocks[b].idom = -1
            for i in range(src.blocks[b].instr_start, src.blocks[b].instr_start + src.blocks[b].instr_count):
                op = src.instrs[i].op
                if op == OPX_PHI or op == OPX_CONST or op == OPX_UNDEF:
                    continue
                if src.instrs[i].flags & FLAG_STMT_ROOT:
                    if op == OPX_SET:
                        val = self._emit_ref(__cast__('int32_t', src.args[src.instrs[i].arg_start]), b)
                        pid = self._new_place(src.instrs[i].aux, b)
                        dst._emit(OPX_SET, src.instrs[i].flags, b, pid, [val])
                    else:
                        self._emit_tree_root(i, b)
                elif __cast__('bint', self.drop[i]):
                    continue
                elif __cast__('bint', self.materialize[i]):
                    val = self._emit_tree(i, b)
                    dst._emit(OPX_SET, FLAG_SIDE_EFFECT | FLAG_PINNED | FLAG_STMT_ROOT, b, self._scalar_place_of(__cast__('int32_t', self.value_temp[i])), [val])
            if len(__cast__('list', self.distinct_succ[b])) == 1:
                di = __cast__('int32_t', __cast__('list', self.distinct_succ[b])[0])
                if di != b and src.blocks[di].phi_count > 0 and (src.blocks[b].test_val < 0):
                    e = self._first_edge(b, di)
                    self._emit_copies(e, b)
            tv = src.blocks[b].test_val
            if tv >= 0:
                dst.blocks[b].test_val = self._emit_ref(tv, b)
            else:
                dst.blocks[b].test_val = -1
            dst.blocks[b].instr_count = dst.n_instrs - istart
        for si in range(len(self.split_edge)):
            b = self.nb + si
            e = __cast__('int32_t', self.split_edge[si])
            istart = dst.n_instrs
            dst.blocks[b].instr_start = istart
            dst.blocks[b].phi_start = 0
            dst.blocks[b].phi_count = 0
            dst.blocks[b].rpo = b
            dst.blocks[b].idom = -1
            self._emit_copies(e, b)
            dst.blocks[b].test_val = -1
            dst.blocks[b].instr_count = dst.n_instrs - istart
        for b in range(self.nb):
            dst.blocks[b].edge_start = dst.n_edges
            for e in range(src.blocks[b].edge_start, src.blocks[b].edge_start + src.blocks[b].edge_count):
                if __cast__('int32_t', self.edge_split[e]) >= 0:
                    dst._push_edge(b, __cast__('int32_t', self.edge_split[e]), self._edge_cond(e))
                else:
                    dst._push_edge(b, src.edges[e].dst, self._edge_cond(e))
            dst.blocks[b].edge_count = dst.n_edges - dst.blocks[b].edge_start
        for si in range(len(self.split_edge)):
            b = self.nb + si
            e = __cast__('int32_t', self.split_edge[si])
            dst.blocks[b].edge_start = dst.n_edges
            dst._push_edge(b, src.edges[e].dst, None)
            dst.blocks[b].edge_count = dst.n_edges - dst.blocks[b].edge_start
        return dst

    def _emit_tree_root(self, v, block):
        src = self.src
        astart = src.instrs[v].arg_start
        nargs = src.instrs[v].nargs
        k: 'int32_t'
        args = [self._emit_ref(__cast__('int32_t', src.args[astart + k]), block) for k in range(nargs)]
        r = self.dst._emit(src.instrs[v].op, src.instrs[v].flags, block, -1, args)
        self.dst.instrs[r].flags = __cast__('uint8_t', self.dst.instrs[r].flags | FLAG_STMT_ROOT)

    def _first_edge(self, b, d):
        e: 'int32_t'
        for e in range(self.src.blocks[b].edge_start, self.src.blocks[b].edge_start + self.src.blocks[b].edge_count):
            if self.src.edges[e].dst == d:
                return e
        return -1

    def _edge_cond(self, e):
        if self.src.edges[e].cond_kind == EDGE_COND_NONE:
            return None
        if self.src.edges[e].cond_is_int:
            return int(self.src.edges[e].cond)
        return float(self.src.edges[e].cond)

def out_of_ssa(func):
    u = _UnSSA(func)
    return __cast__('Func', u.build())

def run_unssa(entry, mode=None, callback=None):
    func = cfg_cleanup(__cast__('Func', marshal_in(entry, mode, callback)), False)
    ssa = build_ssa(func)
    ssa.verify()
    lowered = out_of_ssa(ssa)
    lowered.verify()
    return to_basic_blocks(lowered)

def _dbits(d):
    bits: 'uint64_t'
    if d != d:
        return __cast__('uint64_t', 9221120237041090560)
    memcpy(__addr__(bits), __addr__(d), __sizeof__(bits))
    return bits

def _bits_to_d(b):
    d: 'double'
    memcpy(__addr__(d), __addr__(b), __sizeof__(d))
    return d

class __anon_enum__:
    _LAT_TOP: 'enum' = 0
    _LAT_CONST: 'enum' = 1
    _LAT_SET: 'enum' = 2
    _LAT_BOTTOM: 'enum' = 3

def _compute_bool(f):
    n = f.n_instrs
    isb = [False] * n
    i: 'int32_t'
    op: 'int32_t'
    a: 'int32_t'
    k: 'int32_t'
    astart: 'int32_t'
    nargs: 'int32_t'
    changed = True
    bval: 'bint'
    cv: 'double'
    while changed:
        changed = False
        for i in range(n):
            if __cast__('bint', isb[i]):
                continue
            op = f.instrs[i].op
            bval = False
            if op == OPX_CONST:
                cv = f.consts[f.instrs[i].aux]
                if cv == 0.0 or cv == 1.0:
                    bval = True
            elif op == OP_Equal or op == OP_NotEqual or op == OP_Greater or (op == OP_GreaterOr) or (op == OP_Less) or (op == OP_LessOr) or (op == OP_Not):
                bval = True
            elif op == OP_And or op == OP_Or or op == OPX_PHI:
                bval = True
                astart = f.instrs[i].arg_start
                nargs = f.instrs[i].nargs
                for k in range(nargs):
                    a = __cast__('int32_t', f.args[astart + k])
                    if not __cast__('bint', isb[a]):
                        bval = False
                        break
            if bval:
                isb[i] = True
                changed = True
    return isb

class _SCCP:
    f: 'Func'
    lk: 'list'
    lc: 'list'
    ls: 'list'
    is_bool: 'list'
    executable: 'uint8_t*'
    reached: 'uint8_t*'
    use_of: 'list'
    incoming: 'list'
    flow_wl: 'list'
    val_wl: 'list'
    test_wl: 'list'

    def __cinit__(self, f):
        self.f = f
        n = f.n_instrs
        nb = f.n_blocks
        ne = f.n_edges
        self.lk = [_LAT_TOP] * n
        self.lc = [0.0] * n
        self.ls = [None] * n
        self.is_bool = _compute_bool(f)
        self.executable = __cast__('uint8_t*', calloc(ne if ne > 0 else 1, __sizeof__(uint8_t)))
        self.reached = __cast__('uint8_t*', calloc(nb if nb > 0 else 1, __sizeof__(uint8_t)))
        if self.executable == NULL or self.reached == NULL:
            raise MemoryError()
        self.flow_wl = []
        self.val_wl = []
        self.test_wl = []
        self.incoming = [[] for _ in range(nb)]
        e: 'int32_t'
        b: 'int32_t'
        i: 'int32_t'
        k: 'int32_t'
        op: 'int32_t'
        astart: 'int32_t'
        nargs: 'int32_t'
        a: 'int32_t'
        pid: 'int32_t'
        tv: 'int32_t'
        for e in range(ne):
            __cast__('list', self.incoming[f.edges[e].dst]).append(e)
        self.use_of = [[] for _ in range(n)]
        for i in range(n):
            op = f.instrs[i].op
            if op == OPX_CONST or op == OPX_UNDEF:
                continue
            astart = f.instrs[i].arg_start
            nargs = f.instrs[i].nargs
            for k in range(nargs):
                a = __cast__('int32_t', f.args[astart + k])
                __cast__('list', self.use_of[a]).append(i)
            if op == OPX_GET or op == OPX_SET:
                pid = f.instrs[i].aux
                if f.places[pid].kind == PLACE_DYNAMIC_BLOCK:
                    __cast__('list', self.use_of[f.places[pid].block_ref]).append(i)
                if f.places[pid].index_val >= 0:
                    __cast__('list', self.use_of[f.places[pid].index_val]).append(i)
        for b in range(nb):
            tv = f.blocks[b].test_val
            if tv >= 0:
                __cast__('list', self.use_of[tv]).append(-(b + 1))

    def __dealloc__(self):
        free(self.executable)
        free(self.reached)

    def _set_lat(self, v, kind, cval, sfz):
        ok = __cast__('int32_t', self.lk[v])
        if ok == kind:
            if kind == _LAT_CONST:
                if _dbits(__cast__('double', self.lc[v])) == _dbits(cval):
                    return False
            elif kind == _LAT_SET:
                if self.ls[v] == sfz:
                    return False
            else:
                return False
        self.lk[v] = kind
        self.lc[v] = cval
        self.ls[v] = sfz
        return True

    def _propagate(self, v):
        x: 'int32_t'
        for x in __cast__('list', self.use_of[v]):
            if x >= 0:
                self.val_wl.append(x)
            else:
                self.test_wl.append(-x - 1)

    def _bool_arg(self, v):
        if __cast__('bint', self.is_bool[v]):
            return True
        if __cast__('int32_t', self.lk[v]) == _LAT_CONST:
            if __cast__('double', self.lc[v]) == 0.0 or __cast__('double', self.lc[v]) == 1.0:
                return True
        return False

    def _and_zero(self, a0, a1):
        if __cast__('int32_t', self.lk[a0]) == _LAT_CONST and __cast__('double', self.lc[a0]) == 0.0 and self._bool_arg(a1):
            return True
        if __cast__('int32_t', self.lk[a1]) == _LAT_CONST and __cast__('double', self.lc[a1]) == 0.0 and self._bool_arg(a0):
            return True
        return False

    def _or_one(self, a0, a1):
        if __cast__('int32_t', self.lk[a0]) == _LAT_CONST and __cast__('double', self.lc[a0]) == 1.0 and self._bool_arg(a1):
            return True
        if __cast__('int32_t', self.lk[a1]) == _LAT_CONST and __cast__('double', self.lc[a1]) == 1.0 and self._bool_arg(a0):
            return True
        return False

    def _transfer(self, i):
        f = self.f
        op = f.instrs[i].op
        astart = f.instrs[i].arg_start
        n = f.instrs[i].nargs
        k: 'int32_t'
        a: 'int32_t'
        kk: 'int32_t'
        a0: 'int32_t'
        a1: 'int32_t'
        saw_bottom: 'bint'
        saw_top: 'bint'
        stackbuf: 'double[16]'
        buf = stackbuf
        nc: 'int32_t'
        r: 'double'
        status: 'int'
        result: 'object'
        if op == OPX_CONST:
            return (_LAT_CONST, f.consts[f.instrs[i].aux], None)
        if op == OPX_UNDEF:
            return (_LAT_BOTTOM, 0.0, None)
        if op == OPX_GET:
            return (_LAT_BOTTOM, 0.0, None)
        if op == OPX_SET:
            return None
        if op == OP_Multiply and n == 2:
            a0 = __cast__('int32_t', f.args[astart])
            a1 = __cast__('int32_t', f.args[astart + 1])
            if __cast__('int32_t', self.lk[a0]) == _LAT_CONST and __cast__('double', self.lc[a0]) == 0.0 and (__cast__('int32_t', self.lk[a1]) != _LAT_CONST) or (__cast__('int32_t', self.lk[a1]) == _LAT_CONST and __cast__('double', self.lc[a1]) == 0.0 and (__cast__('int32_t', self.lk[a0]) != _LAT_CONST)):
                return (_LAT_CONST, 0.0, None)
        if op == OP_And and n == 2:
            if self._and_zero(__cast__('int32_t', f.args[astart]), __cast__('int32_t', f.args[astart + 1])):
                return (_LAT_CONST, 0.0, None)
        if op == OP_Or and n == 2:
            if self._or_one(__cast__('int32_t', f.args[astart]), __cast__('int32_t', f.args[astart + 1])):
                return (_LAT_CONST, 1.0, None)
        saw_bottom = False
        saw_top = False
        nc = 0
        buf = stackbuf
        if n > 16:
            buf = __cast__('double*', malloc(__cast__('unsigned size_t', n) * __sizeof__('double')))
            if buf == NULL:
                return (_LAT_BOTTOM, 0.0, None)
        try:
            for k in range(n):
                a = __cast__('int32_t', f.args[astart + k])
                kk = __cast__('int32_t', self.lk[a])
                if kk == _LAT_BOTTOM or kk == _LAT_SET:
                    saw_bottom = True
                elif kk == _LAT_TOP:
                    saw_top = True
                else:
                    buf[nc] = __cast__('double', self.lc[a])
                    nc += 1
            if saw_bottom:
                result = (_LAT_BOTTOM, 0.0, None)
            elif saw_top:
                result = (_LAT_TOP, 0.0, None)
            elif op < OP_RUNTIME_COUNT and SONOLUS_OP_FOLDABLE[op] != 0:
                status = fold_op(__cast__('uint16_t', op), buf, n, __addr__(r))
                if status == FOLD_OK:
                    result = (_LAT_CONST, r, None)
                else:
                    result = (_LAT_BOTTOM, 0.0, None)
            else:
                result = (_LAT_BOTTOM, 0.0, None)
        finally:
            if n > 16:
                free(buf)
        return result

    def _eval_and_propagate(self, v):
        r = self._transfer(v)
        if r is None:
            return
        if self._set_lat(v, __cast__('int32_t', r[0]), __cast__('double', r[1]), r[2]):
            self._propagate(v)

    def _meet_phi(self, p):
        f = self.f
        b = f.instrs[p].block
        astart = f.instrs[p].arg_start
        inc = __cast__('list', self.incoming[b])
        k: 'int32_t'
        e: 'int32_t'
        a: 'int32_t'
        kk: 'int32_t'
        ne: 'int32_t'
        saw_bottom = False
        elems = {}
        for k in range(len(inc)):
            e = __cast__('int32_t', inc[k])
            if not self.executable[e]:
                continue
            a = __cast__('int32_t', f.args[astart + k])
            kk = __cast__('int32_t', self.lk[a])
            if kk == _LAT_TOP:
                continue
            if kk == _LAT_BOTTOM:
                saw_bottom = True
                break
            if kk == _LAT_CONST:
                elems[_dbits(__cast__('double', self.lc[a]))] = __cast__('double', self.lc[a])
            else:
                for bits in __cast__('object', self.ls[a]):
                    elems[bits] = _bits_to_d(__cast__('uint64_t', __cast__('object', bits)))
        if saw_bottom:
            if self._set_lat(p, _LAT_BOTTOM, 0.0, None):
                self._propagate(p)
            return
        ne = len(elems)
        if ne == 0:
            return
        if ne == 1:
            for dv in elems.values():
                if self._set_lat(p, _LAT_CONST, __cast__('double', dv), None):
                    self._propagate(p)
                break
        elif ne <= 100:
            if self._set_lat(p, _LAT_SET, 0.0, frozenset(elems.keys())):
                self._propagate(p)
        elif self._set_lat(p, _LAT_BOTTOM, 0.0, None):
            self._propagate(p)

    def _mark_edge(self, e):
        if not self.executable[e]:
            self.flow_wl.append(e)

    def _select_edge(self, b, c):
        f = self.f
        es = f.blocks[b].edge_start
        ec = f.blocks[b].edge_count
        e: 'int32_t'
        none_e = -1
        for e in range(es, es + ec):
            if f.edges[e].cond_kind == EDGE_COND_VALUE:
                if f.edges[e].cond == c:
                    return e
            else:
                none_e = e
        return none_e

    def _mark_out_edges(self, b):
        f = self.f
        es = f.blocks[b].edge_start
        ec = f.blocks[b].edge_count
        tv = f.blocks[b].test_val
        e: 'int32_t'
        kind: 'int32_t'
        taken: 'int32_t'
        c: 'double'
        if ec == 0:
            return
        if tv < 0:
            for e in range(es, es + ec):
                self._mark_edge(e)
            return
        kind = __cast__('int32_t', self.lk[tv])
        if kind == _LAT_BOTTOM:
            for e in range(es, es + ec):
                self._mark_edge(e)
            return
        if kind == _LAT_TOP:
            return
        if kind == _LAT_CONST:
            taken = self._select_edge(b, __cast__('double', self.lc[tv]))
            if taken >= 0:
                self._mark_edge(taken)
            return
        for bits in __cast__('object', self.ls[tv]):
            c = _bits_to_d(__cast__('uint64_t', __cast__('object', bits)))
            taken = self._select_edge(b, c)
            if taken >= 0:
                self._mark_edge(taken)

    def _visit_block_first(self, b):
        f = self.f
        istart = f.blocks[b].instr_start
        icount = f.blocks[b].instr_count
        i: 'int32_t'
        for i in range(istart, istart + icount):
            if f.instrs[i].op == OPX_PHI:
                continue
            self._eval_and_propagate(i)
        self._mark_out_edges(b)

    def _drain(self):
        f = self.f
        e: 'int32_t'
        d: 'int32_t'
        v: 'int32_t'
        b: 'int32_t'
        op: 'int32_t'
        p: 'int32_t'
        pstart: 'int32_t'
        pcount: 'int32_t'
        while self.flow_wl or self.val_wl or self.test_wl:
            while self.flow_wl:
                e = __cast__('int32_t', self.flow_wl.pop())
                if self.executable[e]:
                    continue
                self.executable[e] = 1
                d = f.edges[e].dst
                pstart = f.blocks[d].phi_start
                pcount = f.blocks[d].phi_count
                for p in range(pstart, pstart + pcount):
                    self._meet_phi(p)
                if not self.reached[d]:
                    self.reached[d] = 1
                    self._visit_block_first(d)
            while self.val_wl:
                v = __cast__('int32_t', self.val_wl.pop())
                op = f.instrs[v].op
                if op == OPX_PHI:
                    if self.reached[f.instrs[v].block]:
                        self._meet_phi(v)
                elif self.reached[f.instrs[v].block]:
                    self._eval_and_propagate(v)
            while self.test_wl:
                b = __cast__('int32_t', self.test_wl.pop())
                if self.reached[b]:
                    self._mark_out_edges(b)

    def _resolve_top_tests(self):
        f = self.f
        b: 'int32_t'
        es: 'int32_t'
        ec: 'int32_t'
        e: 'int32_t'
        tv: 'int32_t'
        kind: 'int32_t'
        added: 'bint'
        any_exec: 'bint'
        while True:
            added = False
            for b in range(f.n_blocks):
                if not self.reached[b]:
                    continue
                ec = f.blocks[b].edge_count
                if ec == 0:
                    continue
                es = f.blocks[b].edge_start
                any_exec = False
                for e in range(es, es + ec):
                    if self.executable[e]:
                        any_exec = True
                        break
                if any_exec:
                    continue
                tv = f.blocks[b].test_val
                kind = __cast__('int32_t', self.lk[tv]) if tv >= 0 else -1
                if tv < 0 or kind == _LAT_BOTTOM or kind == _LAT_TOP:
                    for e in range(es, es + ec):
                        self.flow_wl.append(e)
                    added = True
            if added:
                self._drain()
            else:
                break

    def run(self):
        entry = self.f.entry_block
        self.reached[entry] = 1
        self._visit_block_first(entry)
        self._drain()
        self._resolve_top_tests()

    def _rpo(self, succ):
        f = self.f
        entry = f.entry_block
        node: 'int32_t'
        idx: 'int32_t'
        ch: 'int32_t'
        depth: 'int32_t'
        visited = [False] * f.n_blocks
        order = []
        node_stack = [entry]
        idx_stack = [0]
        visited[entry] = True
        while node_stack:
            depth = len(node_stack) - 1
            node = __cast__('int32_t', node_stack[depth])
            idx = __cast__('int32_t', idx_stack[depth])
            slist = __cast__('list', succ[node])
            if idx < len(slist):
                idx_stack[depth] = idx + 1
                ch = __cast__('int32_t', slist[idx])
                if not __cast__('bint', visited[ch]):
                    visited[ch] = True
                    node_stack.append(ch)
                    idx_stack.append(0)
            else:
                order.append(node)
                node_stack.pop()
                idx_stack.pop()
        order.reverse()
        return order

    def decisions(self):
        f = self.f
        nb = f.n_blocks
        ne = f.n_edges
        e: 'int32_t'
        b: 'int32_t'
        bi: 'int32_t'
        i: 'int32_t'
        op: 'int32_t'
        es: 'int32_t'
        ec: 'int32_t'
        tv: 'int32_t'
        kind: 'int32_t'
        si: 'int32_t'
        mi: 'int32_t'
        cv: 'double'
        keep_edge = [False] * ne
        for e in range(ne):
            if self.executable[e] and self.reached[f.edges[e].src] and self.reached[f.edges[e].dst]:
                keep_edge[e] = True
        succ = [[] for _ in range(nb)]
        for b in range(nb):
            if not self.reached[b]:
                continue
            es = f.blocks[b].edge_start
            ec = f.blocks[b].edge_count
            items = []
            for e in range(es, es + ec):
                if keep_edge[e]:
                    if f.edges[e].cond_kind == EDGE_COND_NONE:
                        items.append((1, 0.0, f.edges[e].dst))
                    else:
                        items.append((0, f.edges[e].cond, f.edges[e].dst))
            items.sort()
            succ[b] = [it[2] for it in items]
        order = self._rpo(succ)
        keep_instr = [False] * f.n_instrs
        for b in order:
            bi = __cast__('int32_t', b)
            es = f.blocks[bi].instr_start
            ec = f.blocks[bi].instr_count
            for i in range(es, es + ec):
                keep_instr[i] = True
        const_override = {}
        for b in order:
            bi = __cast__('int32_t', b)
            es = f.blocks[bi].instr_start
            ec = f.blocks[bi].instr_count
            for i in range(es, es + ec):
                if __cast__('int32_t', self.lk[i]) != _LAT_CONST:
                    continue
                op = f.instrs[i].op
                if op == OPX_CONST or op == OPX_PHI or op == OPX_UNDEF or (op == OPX_GET) or (op == OPX_SET):
                    continue
                if f.instrs[i].flags & FLAG_STMT_ROOT:
                    continue
                cv = __cast__('double', self.lc[i])
                if cv == 0.0 and signbit(cv):
                    continue
                const_override[i] = cv
        changed = len(order) < nb or len(const_override) > 0
        for e in range(ne):
            if self.reached[f.edges[e].src] and (not __cast__('bint', keep_edge[e])):
                changed = True
        out_spec = {}
        for b in order:
            bi = __cast__('int32_t', b)
            es = f.blocks[bi].edge_start
            ec = f.blocks[bi].edge_count
            survivors = [e for e in range(es, es + ec) if __cast__('bint', keep_edge[e])]
            tv = f.blocks[bi].test_val
            kind = __cast__('int32_t', self.lk[tv]) if tv >= 0 else -1
            spec = []
            if kind == _LAT_CONST:
                for e in survivors:
                    spec.append((f.edges[e].dst, EDGE_COND_NONE, 0.0, 0, e))
                    if f.edges[e].cond_kind != EDGE_COND_NONE:
                        changed = True
            elif kind == _LAT_SET:
                has_none = False
                orig_has_none = False
                for e in range(es, es + ec):
                    if f.edges[e].cond_kind == EDGE_COND_NONE:
                        orig_has_none = True
                for e in survivors:
                    if f.edges[e].cond_kind == EDGE_COND_NONE:
                        has_none = True
                    spec.append((f.edges[e].dst, f.edges[e].cond_kind, f.edges[e].cond, f.edges[e].cond_is_int, e))
                if not has_none and len(spec) > 0:
                    exhaustive = orig_has_none
                    if not exhaustive:
                        exhaustive = True
                        for bits in __cast__('object', self.ls[tv]):
                            cv = _bits_to_d(__cast__('uint64_t', __cast__('object', bits)))
                            matched = False
                            for si in range(len(spec)):
                                if spec[si][1] == EDGE_COND_VALUE and __cast__('double', spec[si][2]) == cv:
                                    matched = True
                                    break
                            if not matched:
                                exhaustive = False
                                break
                    if exhaustive:
                        mi = -1
                        mc = None
                        for si in range(len(spec)):
                            if spec[si][1] == EDGE_COND_VALUE and (mc is None or spec[si][2] > mc):
                                mc = spec[si][2]
                                mi = si
                        if mi >= 0:
                            old = spec[mi]
                            spec[mi] = (old[0], EDGE_COND_NONE, 0.0, 0, old[4])
                            changed = True
            else:
                for e in survivors:
                    spec.append((f.edges[e].dst, f.edges[e].cond_kind, f.edges[e].cond, f.edges[e].cond_is_int, e))
            out_spec[bi] = spec
        return (order, keep_instr, const_override, out_spec, changed)

def _remap_place_c(dst, src, old_pid, newidx, place_map):
    kind = src.places[old_pid].kind
    flags = src.places[old_pid].flags
    br = src.places[old_pid].block_ref
    iv = src.places[old_pid].index_val
    off = src.places[old_pid].offset
    if kind == PLACE_DYNAMIC_BLOCK:
        br = __cast__('int32_t', newidx[br])
    if iv >= 0:
        iv = __cast__('int32_t', newidx[iv])
    key = (kind, flags, br, iv, off)
    cached = place_map.get(key)
    if cached is not None:
        return __cast__('int32_t', cached)
    pid = _add_place(dst, __cast__('uint8_t', kind), __cast__('uint8_t', flags), br, iv, off)
    place_map[key] = pid
    return pid

def _build_compacted(src, order, keep_instr, const_override, out_spec):
    dst = Func()
    nb_old = src.n_blocks
    nb_new = len(order)
    i: 'int32_t'
    b: 'int32_t'
    bi: 'int32_t'
    k: 'int32_t'
    e: 'int32_t'
    kk: 'int32_t'
    newblk = [-1] * nb_old
    for k in range(nb_new):
        newblk[__cast__('int32_t', order[k])] = k
    if src.n_consts > 0:
        dst.consts = __cast__('double*', malloc(__cast__('unsigned size_t', src.n_consts) * __sizeof__('double')))
        if dst.consts == NULL:
            raise MemoryError()
        memcpy(dst.consts, src.consts, __cast__('unsigned size_t', src.n_consts) * __sizeof__('double'))
    dst.n_consts = src.n_consts
    dst.cap_consts = src.n_consts
    dst._rebuild_const_intern()
    if src.n_temps > 0:
        dst.temps = __cast__('TempInfo*', malloc(__cast__('unsigned size_t', src.n_temps) * __sizeof__(TempInfo)))
        if dst.temps == NULL:
            raise MemoryError()
        memcpy(dst.temps, src.temps, __cast__('unsigned size_t', src.n_temps) * __sizeof__(TempInfo))
    dst.n_temps = src.n_temps
    dst.cap_temps = src.n_temps
    dst.names = list(src.names)
    dst._temp_intern = dict(src._temp_intern)
    dst._block_enum_by_id = dict(src._block_enum_by_id)
    dst.blocks_type = src.blocks_type
    dst.callback = src.callback
    dst._block_map = dict(src._block_map)
    dst.is_ssa = True
    override_cinfo = {}
    val: 'double'
    is_int: 'bint'
    cid: 'int32_t'
    for i, oval in const_override.items():
        val = __cast__('double', oval)
        cid = dst._intern_const(val)
        is_int = not isinf(val) and (not isnan(val)) and (val == floor(val))
        override_cinfo[i] = (cid, is_int)
    src_incoming = [[] for _ in range(nb_old)]
    for e in range(src.n_edges):
        src_incoming[src.edges[e].dst].append(e)
    phi_opmap = {}
    pstart: 'int32_t'
    pcount: 'int32_t'
    p: 'int32_t'
    astart: 'int32_t'
    for b in order:
        bi = __cast__('int32_t', b)
        pstart = src.blocks[bi].phi_start
        pcount = src.blocks[bi].phi_count
        inclist = __cast__('list', src_incoming[bi])
        for p in range(pstart, pstart + pcount):
            astart = src.instrs[p].arg_start
            m = {}
            for k in range(src.instrs[p].nargs):
                m[__cast__('int32_t', inclist[k])] = __cast__('int32_t', src.args[astart + k])
            phi_opmap[p] = m
    new_edges = []
    incoming_new = [[] for _ in range(nb_old)]
    block_edge_start = [0] * nb_new
    block_edge_count = [0] * nb_new
    for k in range(nb_new):
        b = __cast__('int32_t', order[k])
        block_edge_start[k] = len(new_edges)
        for spec in out_spec.get(b, []):
            dst_old = __cast__('int32_t', spec[0])
            nei = len(new_edges)
            new_edges.append((k, newblk[dst_old], spec[1], spec[2], spec[3]))
            __cast__('list', incoming_new[dst_old]).append((nei, spec[4]))
        block_edge_count[k] = len(new_edges) - block_edge_start[k]
    newidx = {}
    block_instrs = [[] for _ in range(nb_new)]
    block_start = [0] * nb_new
    next_idx = 0
    total_args = 0
    istart: 'int32_t'
    icount: 'int32_t'
    op: 'int32_t'
    for k in range(nb_new):
        b = __cast__('int32_t', order[k])
        block_start[k] = next_idx
        istart = src.blocks[b].instr_start
        icount = src.blocks[b].instr_count
        for i in range(istart, istart + icount):
            if not __cast__('bint', keep_instr[i]):
                continue
            __cast__('list', block_instrs[k]).append(i)
            newidx[i] = next_idx
            next_idx += 1
            op = src.instrs[i].op
            if i in const_override:
                pass
            elif op == OPX_PHI:
                total_args += len(__cast__('list', incoming_new[b]))
            elif op == OPX_CONST or op == OPX_UNDEF:
                pass
            else:
                total_args += src.instrs[i].nargs
    total_instrs = next_idx
    dst.instrs = __cast__('Instr*', malloc(__cast__('unsigned size_t', total_instrs if total_instrs > 0 else 1) * __sizeof__(Instr)))
    dst.args = __cast__('uint32_t*', malloc(__cast__('unsigned size_t', total_args if total_args > 0 else 1) * __sizeof__(uint32_t)))
    if dst.instrs == NULL or dst.args == NULL:
        raise MemoryError()
    dst.n_instrs = total_instrs
    dst.cap_instrs = total_instrs
    dst.cap_args = total_args
    dst.blocks = __cast__('BlockInfo*', malloc(__cast__('unsigned size_t', nb_new if nb_new > 0 else 1) * __sizeof__(BlockInfo)))
    if dst.blocks == NULL:
        raise MemoryError()
    dst.n_blocks = nb_new
    dst.cap_blocks = nb_new
    dst.entry_block = newblk[src.entry_block]
    place_map = {}
    arg_cursor = 0
    ni: 'int32_t'
    oldv: 'int32_t'
    phi_first: 'int32_t'
    phi_cnt: 'int32_t'
    cnt: 'int32_t'
    nn: 'int32_t'
    val_new: 'int32_t'
    pid: 'int32_t'
    old_edge: 'int32_t'
    operand: 'int32_t'
    has_value_edge: 'bint'
    for k in range(nb_new):
        b = __cast__('int32_t', order[k])
        phi_first = -1
        phi_cnt = 0
        for oldv in __cast__('list', block_instrs[k]):
            ni = __cast__('int32_t', newidx[oldv])
            op = src.instrs[oldv].op
            dst.instrs[ni].block = k
            dst.instrs[ni].arg_start = arg_cursor
            if oldv in const_override:
                cid = __cast__('int32_t', override_cinfo[oldv][0])
                is_int = __cast__('bint', override_cinfo[oldv][1])
                dst.instrs[ni].op = OPX_CONST
                dst.instrs[ni].flags = __cast__('uint8_t', FLAG_PURE | (FLAG_CONST_IS_INT if is_int else 0))
                dst.instrs[ni].aux = cid
                dst.instrs[ni].nargs = 0
            elif op == OPX_PHI:
                if phi_first == -1:
                    phi_first = ni
                phi_cnt += 1
                m = __cast__('dict', phi_opmap[oldv])
                cnt = 0
                for pair in __cast__('list', incoming_new[b]):
                    old_edge = __cast__('int32_t', pair[1])
                    operand = __cast__('int32_t', m[old_edge])
                    dst.args[arg_cursor] = __cast__('uint32_t', __cast__('int32_t', newidx[operand]))
                    arg_cursor += 1
                    cnt += 1
                dst.instrs[ni].op = OPX_PHI
                dst.instrs[ni].flags = src.instrs[oldv].flags
                dst.instrs[ni].aux = src.instrs[oldv].aux
                dst.instrs[ni].nargs = __cast__('int16_t', cnt)
            elif op == OPX_CONST:
                dst.instrs[ni].op = OPX_CONST
                dst.instrs[ni].flags = src.instrs[oldv].flags
                dst.instrs[ni].aux = src.instrs[oldv].aux
                dst.instrs[ni].nargs = 0
            elif op == OPX_UNDEF:
                dst.instrs[ni].op = OPX_UNDEF
                dst.instrs[ni].flags = src.instrs[oldv].flags
                dst.instrs[ni].aux = -1
                dst.instrs[ni].nargs = 0
            elif op == OPX_GET:
                pid = _remap_place_c(dst, src, src.instrs[oldv].aux, newidx, place_map)
                dst.instrs[ni].op = OPX_GET
                dst.instrs[ni].flags = src.instrs[oldv].flags
                dst.instrs[ni].aux = pid
                dst.instrs[ni].nargs = 0
            elif op == OPX_SET:
                val_new = __cast__('int32_t', newidx[__cast__('int32_t', src.args[src.instrs[oldv].arg_start])])
                pid = _remap_place_c(dst, src, src.instrs[oldv].aux, newidx, place_map)
                dst.args[arg_cursor] = __cast__('uint32_t', val_new)
                arg_cursor += 1
                dst.instrs[ni].op = OPX_SET
                dst.instrs[ni].flags = src.instrs[oldv].flags
                dst.instrs[ni].aux = pid
                dst.instrs[ni].nargs = 1
            else:
                astart = src.instrs[oldv].arg_start
                nn = src.instrs[oldv].nargs
                for kk in range(nn):
                    dst.args[arg_cursor] = __cast__('uint32_t', __cast__('int32_t', newidx[__cast__('int32_t', src.args[astart + kk])]))
                    arg_cursor += 1
                dst.instrs[ni].op = __cast__('uint16_t', op)
                dst.instrs[ni].flags = src.instrs[oldv].flags
                dst.instrs[ni].aux = src.instrs[oldv].aux
                dst.instrs[ni].nargs = __cast__('int16_t', nn)
        dst.blocks[k].instr_start = __cast__('int32_t', block_start[k])
        dst.blocks[k].instr_count = len(__cast__('list', block_instrs[k]))
        dst.blocks[k].phi_start = phi_first if phi_cnt > 0 else __cast__('int32_t', block_start[k])
        dst.blocks[k].phi_count = phi_cnt
        dst.blocks[k].rpo = k
        dst.blocks[k].idom = -1
        dst.blocks[k].edge_start = __cast__('int32_t', block_edge_start[k])
        dst.blocks[k].edge_count = __cast__('int32_t', block_edge_count[k])
        has_value_edge = False
        for spec in out_spec.get(b, []):
            if spec[1] == EDGE_COND_VALUE:
                has_value_edge = True
                break
        if has_value_edge and src.blocks[b].test_val >= 0:
            dst.blocks[k].test_val = __cast__('int32_t', newidx[src.blocks[b].test_val])
        else:
            dst.blocks[k].test_val = -1
    dst.n_args = arg_cursor
    nen = len(new_edges)
    dst.edges = __cast__('Edge*', malloc(__cast__('unsigned size_t', nen if nen > 0 else 1) * __sizeof__(Edge)))
    if dst.edges == NULL:
        raise MemoryError()
    for e in range(nen):
        ne_t = new_edges[e]
        dst.edges[e].src = __cast__('int32_t', ne_t[0])
        dst.edges[e].dst = __cast__('int32_t', ne_t[1])
        dst.edges[e].cond_kind = __cast__('uint8_t', ne_t[2])
        dst.edges[e].cond = __cast__('double', ne_t[3])
        dst.edges[e].cond_is_int = __cast__('uint8_t', ne_t[4])
    dst.n_edges = nen
    dst.cap_edges = nen
    if src.undef_val >= 0 and __cast__('bint', keep_instr[src.undef_val]):
        dst.undef_val = __cast__('int32_t', newidx[src.undef_val])
    else:
        dst.undef_val = -1
    widened = set()
    if src._ssa_undef:
        for wv in src._ssa_undef:
            if __cast__('bint', keep_instr[wv]):
                widened.add(__cast__('int32_t', newidx[wv]))
    dst._ssa_undef = widened
    compute_dominators(dst)
    return dst

def _resolve(subst, v):
    while v in subst:
        v = __cast__('int32_t', subst[v])
    return v

def _is_c(f, v, c):
    return f.instrs[v].op == OPX_CONST and f.consts[f.instrs[v].aux] == c

def _gvn_instr(f, i, avail, undo, subst, is_bool, widened, changed):
    op = f.instrs[i].op
    astart = f.instrs[i].arg_start
    n = f.instrs[i].nargs
    pid: 'int32_t'
    iv: 'int32_t'
    ivr: 'int32_t'
    inner: 'int32_t'
    k: 'int32_t'
    av: 'int32_t'
    innerarg: 'int32_t'
    neg_inner: 'int32_t'
    if i in widened:
        return
    if op == OPX_UNDEF or op == OPX_SET or op == OPX_PHI:
        return
    if op == OPX_CONST:
        key = ('c', f.instrs[i].aux)
        prev = avail.get(key)
        if prev is not None:
            subst[i] = __cast__('int32_t', prev)
            changed[0] = True
            return
        undo.append(key)
        avail[key] = i
        return
    if op == OPX_GET:
        pid = f.instrs[i].aux
        if f.places[pid].kind == PLACE_REAL_BLOCK and (not f.places[pid].flags & PLACE_WRITABLE):
            iv = f.places[pid].index_val
            if iv >= 0:
                ivr = _resolve(subst, iv)
                if ivr in widened:
                    return
            else:
                ivr = -1
            key = ('g', f.places[pid].block_ref, ivr, f.places[pid].offset)
            prev = avail.get(key)
            if prev is not None:
                subst[i] = __cast__('int32_t', prev)
                changed[0] = True
                return
            undo.append(key)
            avail[key] = i
        return
    if not f.instrs[i].flags & FLAG_PURE:
        return
    a = []
    for k in range(n):
        av = _resolve(subst, __cast__('int32_t', f.args[astart + k]))
        if av in widened:
            return
        a.append(av)
    if op == OP_Add and n == 2:
        if _is_c(f, __cast__('int32_t', a[1]), 0.0):
            subst[i] = __cast__('int32_t', a[0])
            changed[0] = True
            return
        if _is_c(f, __cast__('int32_t', a[0]), 0.0):
            subst[i] = __cast__('int32_t', a[1])
            changed[0] = True
            return
        if f.instrs[__cast__('int32_t', a[1])].op == OP_Negate and f.instrs[__cast__('int32_t', a[1])].nargs == 1:
            neg_inner = _resolve(subst, __cast__('int32_t', f.args[f.instrs[__cast__('int32_t', a[1])].arg_start]))
            f.instrs[i].op = OP_Subtract
            f.args[astart + 1] = __cast__('uint32_t', neg_inner)
            op = OP_Subtract
            a[1] = neg_inner
            changed[0] = True
    elif op == OP_Subtract and n == 2:
        if _is_c(f, __cast__('int32_t', a[1]), 0.0):
            subst[i] = __cast__('int32_t', a[0])
            changed[0] = True
            return
        if _is_c(f, __cast__('int32_t', a[0]), 0.0):
            f.instrs[i].op = OP_Negate
            f.args[astart] = __cast__('uint32_t', __cast__('int32_t', a[1]))
            f.instrs[i].nargs = 1
            op = OP_Negate
            n = 1
            a = [a[1]]
            changed[0] = True
        elif f.instrs[__cast__('int32_t', a[1])].op == OP_Negate and f.instrs[__cast__('int32_t', a[1])].nargs == 1:
            neg_inner = _resolve(subst, __cast__('int32_t', f.args[f.instrs[__cast__('int32_t', a[1])].arg_start]))
            f.instrs[i].op = OP_Add
            f.args[astart + 1] = __cast__('uint32_t', neg_inner)
            op = OP_Add
            a[1] = neg_inner
            changed[0] = True
    elif op == OP_Multiply and n == 2:
        if _is_c(f, __cast__('int32_t', a[1]), 1.0):
            subst[i] = __cast__('int32_t', a[0])
            changed[0] = True
            return
        if _is_c(f, __cast__('int32_t', a[0]), 1.0):
            subst[i] = __cast__('int32_t', a[1])
            changed[0] = True
            return
    elif op == OP_Divide and n == 2:
        if _is_c(f, __cast__('int32_t', a[1]), 1.0):
            subst[i] = __cast__('int32_t', a[0])
            changed[0] = True
            return
    if op == OP_Negate and n == 1:
        inner = __cast__('int32_t', a[0])
        if f.instrs[inner].op == OP_Negate:
            subst[i] = _resolve(subst, __cast__('int32_t', f.args[f.instrs[inner].arg_start]))
            changed[0] = True
            return
    if op == OP_Not and n == 1:
        inner = __cast__('int32_t', a[0])
        if f.instrs[inner].op == OP_Not:
            innerarg = _resolve(subst, __cast__('int32_t', f.args[f.instrs[inner].arg_start]))
            if __cast__('bint', is_bool[innerarg]):
                subst[i] = innerarg
                changed[0] = True
                return
    if (op == OP_Min or op == OP_Max) and n == 2 and (a[0] == a[1]):
        subst[i] = __cast__('int32_t', a[0])
        changed[0] = True
        return
    if (op == OP_Equal or op == OP_NotEqual or op == OP_Max or (op == OP_Min)) and n == 2 and (a[0] > a[1]):
        tmp = a[0]
        a[0] = a[1]
        a[1] = tmp
        changed[0] = True
    for k in range(n):
        f.args[astart + k] = __cast__('uint32_t', __cast__('int32_t', a[k]))
    key = ('o', op, tuple(a))
    prev = avail.get(key)
    if prev is not None:
        subst[i] = __cast__('int32_t', prev)
        changed[0] = True
        return
    undo.append(key)
    avail[key] = i

def _apply_subst(f, subst):
    i: 'int32_t'
    b: 'int32_t'
    k: 'int32_t'
    astart: 'int32_t'
    nargs: 'int32_t'
    tv: 'int32_t'
    pid: 'int32_t'
    for i in range(f.n_instrs):
        astart = f.instrs[i].arg_start
        nargs = f.instrs[i].nargs
        for k in range(nargs):
            f.args[astart + k] = __cast__('uint32_t', _resolve(subst, __cast__('int32_t', f.args[astart + k])))
    for b in range(f.n_blocks):
        tv = f.blocks[b].test_val
        if tv >= 0:
            f.blocks[b].test_val = _resolve(subst, tv)
    for pid in range(f.n_places):
        if f.places[pid].kind == PLACE_DYNAMIC_BLOCK:
            f.places[pid].block_ref = _resolve(subst, f.places[pid].block_ref)
        if f.places[pid].index_val >= 0:
            f.places[pid].index_val = _resolve(subst, f.places[pid].index_val)

def _collapse_trivial_phis(f):
    b: 'int32_t'
    ps: 'int32_t'
    pc: 'int32_t'
    p: 'int32_t'
    e: 'int32_t'
    d: 'int32_t'
    operand: 'int32_t'
    in_count = [0] * f.n_blocks
    sole_in_src = [-1] * f.n_blocks
    for e in range(f.n_edges):
        d = f.edges[e].dst
        in_count[d] = __cast__('int32_t', in_count[d]) + 1
        sole_in_src[d] = f.edges[e].src
    subst = {}
    for b in range(f.n_blocks):
        if __cast__('int32_t', in_count[b]) == 1 and __cast__('int32_t', sole_in_src[b]) == b:
            continue
        ps = f.blocks[b].phi_start
        pc = f.blocks[b].phi_count
        for p in range(ps, ps + pc):
            if f.instrs[p].nargs == 1:
                operand = __cast__('int32_t', f.args[f.instrs[p].arg_start])
                if operand == p:
                    continue
                subst[p] = operand
    if subst:
        _apply_subst(f, subst)
        return (f, True)
    return (f, False)

def _run_gvn_inplace(f):
    D = compute_dominators(f)
    is_bool = _compute_bool(f)
    widened = f._ssa_undef if f._ssa_undef is not None else set()
    subst = {}
    avail = {}
    changed = [False]
    entry = f.entry_block
    b: 'int32_t'
    i: 'int32_t'
    istart: 'int32_t'
    icount: 'int32_t'
    ci: 'int32_t'
    ch_start: 'int32_t'
    ch_end: 'int32_t'
    work = [('enter', entry)]
    while work:
        frame = work.pop()
        if frame[0] == 'exit':
            for key in __cast__('list', frame[1]):
                del avail[key]
            continue
        b = __cast__('int32_t', frame[1])
        undo = []
        istart = f.blocks[b].instr_start
        icount = f.blocks[b].instr_count
        for i in range(istart, istart + icount):
            if f.instrs[i].op == OPX_PHI:
                continue
            _gvn_instr(f, i, avail, undo, subst, is_bool, widened, changed)
        work.append(('exit', undo))
        ch_start = D.child_head[b]
        ch_end = D.child_head[b + 1]
        for ci in range(ch_end - 1, ch_start - 1, -1):
            work.append(('enter', D.child_list[ci]))
    if subst or __cast__('bint', changed[0]):
        _apply_subst(f, subst)
        return (f, True)
    return (f, False)

def _canon_branch_not(f):
    nb = f.n_blocks
    edges = f.edges
    b: 'int32_t'
    e: 'int32_t'
    estart: 'int32_t'
    ecount: 'int32_t'
    tv: 'int32_t'
    val_e: 'int32_t'
    none_e: 'int32_t'
    count: 'int32_t'
    changed = False
    for b in range(nb):
        ecount = f.blocks[b].edge_count
        if ecount != 2:
            continue
        tv = f.blocks[b].test_val
        if tv < 0:
            continue
        estart = f.blocks[b].edge_start
        val_e = -1
        none_e = -1
        for e in range(estart, estart + ecount):
            if edges[e].cond_kind == EDGE_COND_NONE:
                none_e = e
            elif edges[e].cond_kind == EDGE_COND_VALUE and edges[e].cond == 0.0:
                val_e = e
        if val_e < 0 or none_e < 0:
            continue
        count = 0
        while f.instrs[tv].op == OP_Not and f.instrs[tv].nargs == 1:
            tv = __cast__('int32_t', f.args[f.instrs[tv].arg_start])
            count += 1
        if count == 0:
            continue
        f.blocks[b].test_val = tv
        if count % 2 == 1:
            edges[val_e].cond_kind = EDGE_COND_NONE
            edges[val_e].cond = 0.0
            edges[val_e].cond_is_int = 0
            edges[none_e].cond_kind = EDGE_COND_VALUE
            edges[none_e].cond = 0.0
            edges[none_e].cond_is_int = 1
        changed = True
    return changed

def _run_dce(f):
    n = f.n_instrs
    live = [False] * n
    wl = []
    i: 'int32_t'
    b: 'int32_t'
    tv: 'int32_t'
    op: 'int32_t'
    astart: 'int32_t'
    nargs: 'int32_t'
    k: 'int32_t'
    a: 'int32_t'
    pid: 'int32_t'
    br: 'int32_t'
    ivv: 'int32_t'
    v: 'int32_t'
    e: 'int32_t'
    es: 'int32_t'
    ec: 'int32_t'
    for b in range(f.n_blocks):
        tv = f.blocks[b].test_val
        if tv >= 0 and (not __cast__('bint', live[tv])):
            live[tv] = True
            wl.append(tv)
    for i in range(n):
        if f.instrs[i].flags & (FLAG_STMT_ROOT | FLAG_SIDE_EFFECT):
            if not __cast__('bint', live[i]):
                live[i] = True
                wl.append(i)
    while wl:
        v = __cast__('int32_t', wl.pop())
        op = f.instrs[v].op
        if op == OPX_CONST or op == OPX_UNDEF:
            continue
        astart = f.instrs[v].arg_start
        nargs = f.instrs[v].nargs
        for k in range(nargs):
            a = __cast__('int32_t', f.args[astart + k])
            if not __cast__('bint', live[a]):
                live[a] = True
                wl.append(a)
        if op == OPX_GET or op == OPX_SET:
            pid = f.instrs[v].aux
            if f.places[pid].kind == PLACE_DYNAMIC_BLOCK:
                br = f.places[pid].block_ref
                if not __cast__('bint', live[br]):
                    live[br] = True
                    wl.append(br)
            ivv = f.places[pid].index_val
            if ivv >= 0 and (not __cast__('bint', live[ivv])):
                live[ivv] = True
                wl.append(ivv)
    changed = False
    for i in range(n):
        if not __cast__('bint', live[i]):
            changed = True
            break
    if not changed:
        return (f, False)
    order = list(range(f.n_blocks))
    out_spec = {}
    for b in range(f.n_blocks):
        es = f.blocks[b].edge_start
        ec = f.blocks[b].edge_count
        spec = []
        for e in range(es, es + ec):
            spec.append((f.edges[e].dst, f.edges[e].cond_kind, f.edges[e].cond, f.edges[e].cond_is_int, e))
        out_spec[b] = spec
    newf = _build_compacted(f, order, live, {}, out_spec)
    return (newf, True)

def _resolve_vref(ref, oldmap, tokenmap):
    if __cast__('str', ref[0]) == 'o':
        return __cast__('int32_t', oldmap[__cast__('int32_t', ref[1])])
    return __cast__('int32_t', tokenmap[ref[1]])

def _emit_from_model(src, pblocks, entry_pb):
    dst = Func()
    npb = len(pblocks)
    i: 'int32_t'
    k: 'int32_t'
    pb: 'int32_t'
    kk: 'int32_t'
    nn: 'int32_t'
    astart: 'int32_t'
    ov: 'int32_t'
    op: 'int32_t'
    pid: 'int32_t'
    val_new: 'int32_t'
    ni: 'int32_t'
    arg_cursor: 'int32_t'
    total_instrs: 'int32_t'
    total_args: 'int32_t'
    nb_new: 'int32_t'
    ninc: 'int32_t'
    succ = [[] for _ in range(npb)]
    for pb in range(npb):
        for espec in __cast__('list', __cast__('dict', pblocks[pb])['edges']):
            __cast__('list', succ[pb]).append(__cast__('int32_t', espec[0]))
    visited = [False] * npb
    post = []
    stack = [(entry_pb, 0)]
    visited[entry_pb] = True
    while stack:
        top = stack[len(stack) - 1]
        node = __cast__('int32_t', top[0])
        idx = __cast__('int32_t', top[1])
        slist = __cast__('list', succ[node])
        if idx < len(slist):
            stack[len(stack) - 1] = (node, idx + 1)
            ch = __cast__('int32_t', slist[idx])
            if not __cast__('bint', visited[ch]):
                visited[ch] = True
                stack.append((ch, 0))
        else:
            post.append(node)
            stack.pop()
    rpo = list(reversed(post))
    nb_new = len(rpo)
    new_bid = {}
    for k in range(nb_new):
        new_bid[__cast__('int32_t', rpo[k])] = k
    if src.n_consts > 0:
        dst.consts = __cast__('double*', malloc(__cast__('unsigned size_t', src.n_consts) * __sizeof__('double')))
        if dst.consts == NULL:
            raise MemoryError()
        memcpy(dst.consts, src.consts, __cast__('unsigned size_t', src.n_consts) * __sizeof__('double'))
    dst.n_consts = src.n_consts
    dst.cap_consts = src.n_consts
    dst._rebuild_const_intern()
    if src.n_temps > 0:
        dst.temps = __cast__('TempInfo*', malloc(__cast__('unsigned size_t', src.n_temps) * __sizeof__(TempInfo)))
        if dst.temps == NULL:
            raise MemoryError()
        memcpy(dst.temps, src.temps, __cast__('unsigned size_t', src.n_temps) * __sizeof__(TempInfo))
    dst.n_temps = src.n_temps
    dst.cap_temps = src.n_temps
    dst.names = list(src.names)
    dst._temp_intern = dict(src._temp_intern)
    dst._block_enum_by_id = dict(src._block_enum_by_id)
    dst.blocks_type = src.blocks_type
    dst.callback = src.callback
    dst._block_map = dict(src._block_map)
    dst.is_ssa = True
    new_edges = []
    incoming_new = [[] for _ in range(nb_new)]
    block_edge_start = [0] * nb_new
    block_edge_count = [0] * nb_new
    for k in range(nb_new):
        pb = __cast__('int32_t', rpo[k])
        block_edge_start[k] = len(new_edges)
        for espec in __cast__('list', __cast__('dict', pblocks[pb])['edges']):
            dst_pb = __cast__('int32_t', espec[0])
            nb_dst = __cast__('int32_t', new_bid[dst_pb])
            nei = len(new_edges)
            new_edges.append((k, nb_dst, __cast__('int32_t', espec[1]), __cast__('double', espec[2]), __cast__('int32_t', espec[3])))
            __cast__('list', incoming_new[nb_dst]).append((nei, espec[4]))
        block_edge_count[k] = len(new_edges) - block_edge_start[k]
    oldmap = {}
    tokenmap = {}
    block_items = [None] * nb_new
    block_start = [0] * nb_new
    ni = 0
    for k in range(nb_new):
        pb = __cast__('int32_t', rpo[k])
        items = __cast__('list', __cast__('dict', pblocks[pb])['items'])
        block_items[k] = items
        block_start[k] = ni
        for it in items:
            if __cast__('str', it[0]) == 'i':
                oldmap[__cast__('int32_t', it[1])] = ni
            else:
                tokenmap[it[1]] = ni
            ni += 1
    total_instrs = ni
    total_args = 0
    for k in range(nb_new):
        ninc = len(__cast__('list', incoming_new[k]))
        for it in __cast__('list', block_items[k]):
            if __cast__('str', it[0]) == 'np':
                total_args += ninc
            else:
                ov = __cast__('int32_t', it[1])
                op = src.instrs[ov].op
                if op == OPX_PHI:
                    total_args += ninc
                elif op == OPX_CONST or op == OPX_UNDEF or op == OPX_GET:
                    pass
                elif op == OPX_SET:
                    total_args += 1
                else:
                    total_args += src.instrs[ov].nargs
    dst.instrs = __cast__('Instr*', malloc(__cast__('unsigned size_t', total_instrs if total_instrs > 0 else 1) * __sizeof__(Instr)))
    dst.args = __cast__('uint32_t*', malloc(__cast__('unsigned size_t', total_args if total_args > 0 else 1) * __sizeof__(uint32_t)))
    if dst.instrs == NULL or dst.args == NULL:
        raise MemoryError()
    dst.n_instrs = total_instrs
    dst.cap_instrs = total_instrs
    dst.cap_args = total_args
    dst.blocks = __cast__('BlockInfo*', malloc(__cast__('unsigned size_t', nb_new if nb_new > 0 else 1) * __sizeof__(BlockInfo)))
    if dst.blocks == NULL:
        raise MemoryError()
    dst.n_blocks = nb_new
    dst.cap_blocks = nb_new
    dst.entry_block = __cast__('int32_t', new_bid[entry_pb])
    place_map = {}
    arg_cursor = 0
    phi_first: 'int32_t'
    phi_cnt: 'int32_t'
    for k in range(nb_new):
        pb = __cast__('int32_t', rpo[k])
        inclist = __cast__('list', incoming_new[k])
        ninc = len(inclist)
        phi_first = -1
        phi_cnt = 0
        ni = __cast__('int32_t', block_start[k])
        for it in __cast__('list', block_items[k]):
            dst.instrs[ni].block = k
            dst.instrs[ni].arg_start = arg_cursor
            if __cast__('str', it[0]) == 'np':
                opmap = __cast__('dict', it[3])
                for pair in inclist:
                    dst.args[arg_cursor] = __cast__('uint32_t', _resolve_vref(opmap[pair[1]], oldmap, tokenmap))
                    arg_cursor += 1
                dst.instrs[ni].op = OPX_PHI
                dst.instrs[ni].flags = 0
                dst.instrs[ni].aux = __cast__('int32_t', it[2])
                dst.instrs[ni].nargs = __cast__('int16_t', ninc)
                if phi_first == -1:
                    phi_first = ni
                phi_cnt += 1
            else:
                ov = __cast__('int32_t', it[1])
                op = src.instrs[ov].op
                if op == OPX_PHI:
                    opmap = __cast__('dict', it[2])
                    for pair in inclist:
                        dst.args[arg_cursor] = __cast__('uint32_t', _resolve_vref(opmap[pair[1]], oldmap, tokenmap))
                        arg_cursor += 1
                    dst.instrs[ni].op = OPX_PHI
                    dst.instrs[ni].flags = src.instrs[ov].flags
                    dst.instrs[ni].aux = src.instrs[ov].aux
                    dst.instrs[ni].nargs = __cast__('int16_t', ninc)
                    if phi_first == -1:
                        phi_first = ni
                    phi_cnt += 1
                elif op == OPX_CONST:
                    dst.instrs[ni].op = OPX_CONST
                    dst.instrs[ni].flags = src.instrs[ov].flags
                    dst.instrs[ni].aux = src.instrs[ov].aux
                    dst.instrs[ni].nargs = 0
                elif op == OPX_UNDEF:
                    dst.instrs[ni].op = OPX_UNDEF
                    dst.instrs[ni].flags = src.instrs[ov].flags
                    dst.instrs[ni].aux = -1
                    dst.instrs[ni].nargs = 0
                elif op == OPX_GET:
                    pid = _remap_place_c(dst, src, src.instrs[ov].aux, oldmap, place_map)
                    dst.instrs[ni].op = OPX_GET
                    dst.instrs[ni].flags = src.instrs[ov].flags
                    dst.instrs[ni].aux = pid
                    dst.instrs[ni].nargs = 0
                elif op == OPX_SET:
                    val_new = __cast__('int32_t', oldmap[__cast__('int32_t', src.args[src.instrs[ov].arg_start])])
                    pid = _remap_place_c(dst, src, src.instrs[ov].aux, oldmap, place_map)
                    dst.args[arg_cursor] = __cast__('uint32_t', val_new)
                    arg_cursor += 1
                    dst.instrs[ni].op = OPX_SET
                    dst.instrs[ni].flags = src.instrs[ov].flags
                    dst.instrs[ni].aux = pid
                    dst.instrs[ni].nargs = 1
                else:
                    astart = src.instrs[ov].arg_start
                    nn = src.instrs[ov].nargs
                    for kk in range(nn):
                        dst.args[arg_cursor] = __cast__('uint32_t', __cast__('int32_t', oldmap[__cast__('int32_t', src.args[astart + kk])]))
                        arg_cursor += 1
                    dst.instrs[ni].op = __cast__('uint16_t', op)
                    dst.instrs[ni].flags = src.instrs[ov].flags
                    dst.instrs[ni].aux = src.instrs[ov].aux
                    dst.instrs[ni].nargs = __cast__('int16_t', nn)
            ni += 1
        dst.blocks[k].instr_start = __cast__('int32_t', block_start[k])
        dst.blocks[k].instr_count = len(__cast__('list', block_items[k]))
        dst.blocks[k].phi_start = phi_first if phi_cnt > 0 else __cast__('int32_t', block_start[k])
        dst.blocks[k].phi_count = phi_cnt
        dst.blocks[k].rpo = k
        dst.blocks[k].idom = -1
        dst.blocks[k].edge_start = __cast__('int32_t', block_edge_start[k])
        dst.blocks[k].edge_count = __cast__('int32_t', block_edge_count[k])
        tref = __cast__('dict', pblocks[pb])['test']
        has_value_edge = False
        for espec in __cast__('list', __cast__('dict', pblocks[pb])['edges']):
            if __cast__('int32_t', espec[1]) == EDGE_COND_VALUE:
                has_value_edge = True
                break
        if tref is not None and has_value_edge:
            dst.blocks[k].test_val = _resolve_vref(tref, oldmap, tokenmap)
        else:
            dst.blocks[k].test_val = -1
    dst.n_args = arg_cursor
    nen = len(new_edges)
    dst.edges = __cast__('Edge*', malloc(__cast__('unsigned size_t', nen if nen > 0 else 1) * __sizeof__(Edge)))
    if dst.edges == NULL:
        raise MemoryError()
    for i in range(nen):
        ne_t = new_edges[i]
        dst.edges[i].src = __cast__('int32_t', ne_t[0])
        dst.edges[i].dst = __cast__('int32_t', ne_t[1])
        dst.edges[i].cond_kind = __cast__('uint8_t', ne_t[2])
        dst.edges[i].cond = __cast__('double', ne_t[3])
        dst.edges[i].cond_is_int = __cast__('uint8_t', ne_t[4])
    dst.n_edges = nen
    dst.cap_edges = nen
    if src.undef_val >= 0 and src.undef_val in oldmap:
        dst.undef_val = __cast__('int32_t', oldmap[src.undef_val])
    else:
        dst.undef_val = -1
    widened = set()
    if src._ssa_undef:
        for wv in src._ssa_undef:
            if wv in oldmap:
                widened.add(__cast__('int32_t', oldmap[wv]))
    dst._ssa_undef = widened
    compute_dominators(dst)
    return dst

def _licm_is_rtc(f, v, memo):
    cached = memo.get(v)
    if cached is not None:
        return __cast__('bint', cached)
    op = f.instrs[v].op
    astart: 'int32_t'
    n: 'int32_t'
    k: 'int32_t'
    pid: 'int32_t'
    r = False
    if op == OPX_CONST:
        r = True
    elif op == OPX_GET:
        pid = f.instrs[v].aux
        r = f.places[pid].flags & PLACE_RUNTIME_CONST != 0
    elif op < OP_RUNTIME_COUNT and f.instrs[v].flags & FLAG_PURE:
        r = True
        astart = f.instrs[v].arg_start
        n = f.instrs[v].nargs
        for k in range(n):
            if not _licm_is_rtc(f, __cast__('int32_t', f.args[astart + k]), memo):
                r = False
                break
    memo[v] = r
    return r

def _licm_eff_cost(f, v, memo, memo_rtc):
    cached = memo.get(v)
    if cached is not None:
        return __cast__('int32_t', cached)
    if _licm_is_rtc(f, v, memo_rtc):
        memo[v] = 1
        return 1
    op = f.instrs[v].op
    astart: 'int32_t'
    n: 'int32_t'
    k: 'int32_t'
    pid: 'int32_t'
    iv: 'int32_t'
    c: 'int32_t'
    if op == OPX_CONST:
        c = 1
    elif op == OPX_UNDEF:
        c = 3
    elif op == OPX_GET:
        pid = f.instrs[v].aux
        c = 1
        if f.places[pid].kind == PLACE_DYNAMIC_BLOCK:
            c += _licm_eff_cost(f, f.places[pid].block_ref, memo, memo_rtc)
        else:
            c += 1
        iv = f.places[pid].index_val
        if iv < 0:
            c += 1
        else:
            c += _licm_eff_cost(f, iv, memo, memo_rtc)
    elif op < OP_RUNTIME_COUNT and f.instrs[v].flags & FLAG_PURE:
        c = 1
        astart = f.instrs[v].arg_start
        n = f.instrs[v].nargs
        for k in range(n):
            c += _licm_eff_cost(f, __cast__('int32_t', f.args[astart + k]), memo, memo_rtc)
    else:
        c = 3
    memo[v] = c
    return c

def _licm_hoist_kind(f, v):
    op = f.instrs[v].op
    pid: 'int32_t'
    if op == OPX_GET:
        pid = f.instrs[v].aux
        return f.places[pid].kind == PLACE_REAL_BLOCK and (not f.places[pid].flags & PLACE_WRITABLE)
    if op < OP_RUNTIME_COUNT and f.instrs[v].flags & FLAG_PURE:
        return True
    return False

def _licm_operands(f, v):
    pid: 'int32_t'
    astart: 'int32_t'
    n: 'int32_t'
    k: 'int32_t'
    res = []
    if f.instrs[v].op == OPX_GET:
        pid = f.instrs[v].aux
        if f.places[pid].kind == PLACE_DYNAMIC_BLOCK:
            res.append(f.places[pid].block_ref)
        if f.places[pid].index_val >= 0:
            res.append(f.places[pid].index_val)
        return res
    astart = f.instrs[v].arg_start
    n = f.instrs[v].nargs
    for k in range(n):
        res.append(__cast__('int32_t', f.args[astart + k]))
    return res

def _licm_operand_inv(f, F, L, a, inv):
    if not F.in_loop(L, f.instrs[a].block):
        return True
    return __cast__('bint', inv.get(a, False))

def _licm_is_invariant(f, F, L, v, inv):
    op = f.instrs[v].op
    pid: 'int32_t'
    astart: 'int32_t'
    n: 'int32_t'
    k: 'int32_t'
    iv: 'int32_t'
    if op == OPX_PHI:
        return False
    if op == OPX_UNDEF or op == OPX_CONST:
        return True
    if op == OPX_GET:
        pid = f.instrs[v].aux
        if f.places[pid].kind != PLACE_REAL_BLOCK:
            return False
        if f.places[pid].flags & PLACE_WRITABLE:
            return False
        iv = f.places[pid].index_val
        if iv >= 0 and (not _licm_operand_inv(f, F, L, iv, inv)):
            return False
        return True
    if op < OP_RUNTIME_COUNT and f.instrs[v].flags & FLAG_PURE:
        astart = f.instrs[v].arg_start
        n = f.instrs[v].nargs
        for k in range(n):
            if not _licm_operand_inv(f, F, L, __cast__('int32_t', f.args[astart + k]), inv):
                return False
        return True
    return False

def _incoming_by_block(f):
    incoming = [[] for _ in range(f.n_blocks)]
    e: 'int32_t'
    for e in range(f.n_edges):
        __cast__('list', incoming[f.edges[e].dst]).append(e)
    return incoming

def _phi_opmap_src(f, vid, incoming):
    astart = f.instrs[vid].arg_start
    nargs = f.instrs[vid].nargs
    k: 'int32_t'
    inc = __cast__('list', incoming[f.instrs[vid].block])
    opmap = {}
    for k in range(nargs):
        opmap[__cast__('int32_t', inc[k])] = ('o', __cast__('int32_t', f.args[astart + k]))
    return opmap

def _licm_try_loop(f, D, F, L):
    header = F.header[L]
    entry = f.entry_block
    nb = f.n_blocks
    e: 'int32_t'
    u: 'int32_t'
    vid: 'int32_t'
    b: 'int32_t'
    a: 'int32_t'
    w: 'int32_t'
    bit: 'int32_t'
    base: 'int32_t'
    istart: 'int32_t'
    icount: 'int32_t'
    body_off: 'int64_t'
    word: 'uint64_t'
    if header == entry:
        return None
    latches = []
    for e in range(f.n_edges):
        if f.edges[e].dst == header and D.dominates(header, f.edges[e].src):
            latches.append(f.edges[e].src)
    if not latches:
        return None
    inv = {}
    body_off = __cast__('int64_t', L) * F.nwb
    for w in range(F.nwb):
        word = F.body[body_off + w]
        if word == 0:
            continue
        base = w << 6
        for bit in range(64):
            if not word >> bit & __cast__('uint64_t', 1):
                continue
            b = base + bit
            istart = f.blocks[b].instr_start
            icount = f.blocks[b].instr_count
            for vid in range(istart, istart + icount):
                inv[vid] = _licm_is_invariant(f, F, L, vid, inv)
    memo_cost = {}
    memo_rtc = {}
    roots = []
    for w in range(F.nwb):
        word = F.body[body_off + w]
        if word == 0:
            continue
        base = w << 6
        for bit in range(64):
            if not word >> bit & __cast__('uint64_t', 1):
                continue
            b = base + bit
            istart = f.blocks[b].instr_start
            icount = f.blocks[b].instr_count
            for vid in range(istart, istart + icount):
                if not __cast__('bint', inv.get(vid, False)):
                    continue
                if not _licm_hoist_kind(f, vid):
                    continue
                guaranteed = True
                for u in latches:
                    if not D.dominates(b, u):
                        guaranteed = False
                        break
                if not guaranteed:
                    continue
                if _licm_eff_cost(f, vid, memo_cost, memo_rtc) < 4:
                    continue
                roots.append(vid)
    if not roots:
        return None
    H = set()
    work = list(roots)
    while work:
        v = __cast__('int32_t', work.pop())
        if v in H:
            continue
        if not F.in_loop(L, f.instrs[v].block):
            continue
        if not __cast__('bint', inv.get(v, False)):
            continue
        H.add(v)
        for a in _licm_operands(f, v):
            work.append(a)
    if not H:
        return None
    return _licm_apply(f, D, F, L, header, H)

def _licm_apply(f, D, F, L, header, H):
    nb = f.n_blocks
    b: 'int32_t'
    vid: 'int32_t'
    istart: 'int32_t'
    icount: 'int32_t'
    es: 'int32_t'
    ec: 'int32_t'
    e: 'int32_t'
    pred: 'int32_t'
    incoming = _incoming_by_block(f)
    pblocks = []
    for b in range(nb):
        items = []
        istart = f.blocks[b].instr_start
        icount = f.blocks[b].instr_count
        for vid in range(istart, istart + icount):
            if vid in H:
                continue
            if f.instrs[vid].op == OPX_PHI:
                items.append(('i', vid, _phi_opmap_src(f, vid, incoming)))
            else:
                items.append(('i', vid, None))
        test = ('o', f.blocks[b].test_val) if f.blocks[b].test_val >= 0 else None
        edges = []
        es = f.blocks[b].edge_start
        ec = f.blocks[b].edge_count
        for e in range(es, es + ec):
            edges.append([f.edges[e].dst, f.edges[e].cond_kind, f.edges[e].cond, f.edges[e].cond_is_int, e])
        pblocks.append({'items': items, 'test': test, 'edges': edges})
    entry_pb = f.entry_block
    entry_edges = []
    back_edges = []
    for e in range(f.n_edges):
        if f.edges[e].dst != header:
            continue
        if F.in_loop(L, f.edges[e].src):
            back_edges.append(e)
        else:
            entry_edges.append(e)
    if not entry_edges:
        return None
    hoist_items = [('i', v, None) for v in sorted(H)]
    reuse_pre = -1
    if len(entry_edges) == 1:
        pred = f.edges[entry_edges[0]].src
        if f.blocks[pred].edge_count == 1 and f.blocks[pred].phi_count == 0:
            reuse_pre = pred
    if reuse_pre >= 0:
        __cast__('dict', pblocks[reuse_pre])['items'].extend(hoist_items)
        return _emit_from_model(f, pblocks, entry_pb)
    pre_pb = len(pblocks)
    p_key = ('licm_pre', header)
    pre_phis = []
    tok_ctr = 0
    header_pb = __cast__('dict', pblocks[header])
    new_header_items = []
    for it in __cast__('list', header_pb['items']):
        if __cast__('str', it[0]) == 'i' and f.instrs[__cast__('int32_t', it[1])].op == OPX_PHI:
            old_opmap = __cast__('dict', it[2])
            if len(entry_edges) == 1:
                pre_operand = old_opmap[entry_edges[0]]
            else:
                tok = ('licm_np', header, tok_ctr)
                tok_ctr += 1
                np_opmap = {}
                for e in entry_edges:
                    np_opmap[e] = old_opmap[e]
                pre_phis.append(('np', tok, f.instrs[__cast__('int32_t', it[1])].aux, np_opmap))
                pre_operand = ('n', tok)
            new_opmap = {p_key: pre_operand}
            for e in back_edges:
                new_opmap[e] = old_opmap[e]
            new_header_items.append(('i', __cast__('int32_t', it[1]), new_opmap))
        else:
            new_header_items.append(it)
    header_pb['items'] = new_header_items
    for e in entry_edges:
        src_b = f.edges[e].src
        for espec in __cast__('list', __cast__('dict', pblocks[src_b])['edges']):
            if espec[4] == e:
                espec[0] = pre_pb
                break
    pre_items = list(pre_phis) + hoist_items
    pre_edges = [[header, EDGE_COND_NONE, 0.0, 0, p_key]]
    pblocks.append({'items': pre_items, 'test': None, 'edges': pre_edges})
    return _emit_from_model(f, pblocks, entry_pb)

def _licm_pass_once(f):
    D = compute_dominators(f)
    F = compute_loops(f, D)
    nl = F.n_loops
    L: 'int32_t'
    if nl == 0:
        return None
    order = sorted(range(nl), key=lambda li: F.header[li], reverse=True)
    for L in order:
        nf = _licm_try_loop(f, D, F, __cast__('int32_t', L))
        if nf is not None:
            return nf
    return None

def _run_licm(f):
    cur = f
    any_changed = False
    cap = f.n_instrs + f.n_blocks + 16
    iters = 0
    while iters < cap:
        iters += 1
        nf = _licm_pass_once(__cast__('Func', cur))
        if nf is None:
            break
        cur = nf
        any_changed = True
    return (cur, any_changed)

def _rsw_block_empty(f, b):
    i: 'int32_t'
    istart: 'int32_t'
    icount: 'int32_t'
    if f.blocks[b].phi_count > 0:
        return False
    istart = f.blocks[b].instr_start
    icount = f.blocks[b].instr_count
    for i in range(istart, istart + icount):
        if f.instrs[i].flags & FLAG_STMT_ROOT:
            return False
    return True

def _rsw_ext_ref(f):
    i: 'int32_t'
    bi: 'int32_t'
    op: 'int32_t'
    astart: 'int32_t'
    k: 'int32_t'
    a: 'int32_t'
    pid: 'int32_t'
    iv: 'int32_t'
    br: 'int32_t'
    b: 'int32_t'
    tv: 'int32_t'
    ext = set()
    for i in range(f.n_instrs):
        bi = f.instrs[i].block
        op = f.instrs[i].op
        astart = f.instrs[i].arg_start
        for k in range(f.instrs[i].nargs):
            a = __cast__('int32_t', f.args[astart + k])
            if f.instrs[a].block != bi:
                ext.add(a)
        if op == OPX_GET or op == OPX_SET:
            pid = f.instrs[i].aux
            iv = f.places[pid].index_val
            if iv >= 0 and f.instrs[iv].block != bi:
                ext.add(iv)
            if f.places[pid].kind == PLACE_DYNAMIC_BLOCK:
                br = f.places[pid].block_ref
                if f.instrs[br].block != bi:
                    ext.add(br)
    for b in range(f.n_blocks):
        tv = f.blocks[b].test_val
        if tv >= 0 and f.instrs[tv].block != b:
            ext.add(tv)
    return ext

def _rsw_relocatable(f, nxt, ext):
    vid: 'int32_t'
    istart = f.blocks[nxt].instr_start
    icount = f.blocks[nxt].instr_count
    for vid in range(istart, istart + icount):
        if vid in ext and f.instrs[vid].op != OPX_CONST:
            return False
    return True

def _rsw_splice_safe(f, kept, nxt_edges, nxt):
    istart = f.blocks[nxt].instr_start
    icount = f.blocks[nxt].instr_count
    t: 'int32_t'
    ps: 'int32_t'
    pc: 'int32_t'
    p: 'int32_t'
    astart: 'int32_t'
    k: 'int32_t'
    a: 'int32_t'
    b_targets = set()
    for ed in kept:
        b_targets.add(__cast__('int32_t', __cast__('dict', ed)['dst']))
    for ed in nxt_edges:
        t = __cast__('int32_t', __cast__('dict', ed)['dst'])
        if t not in b_targets:
            continue
        pc = f.blocks[t].phi_count
        if pc == 0:
            continue
        ps = f.blocks[t].phi_start
        for p in range(ps, ps + pc):
            astart = f.instrs[p].arg_start
            for k in range(f.instrs[p].nargs):
                a = __cast__('int32_t', f.args[astart + k])
                if istart <= a < istart + icount:
                    return False
    return True

def _rsw_rpo(out, entry, nb):
    visited = [False] * nb
    post = []
    stack = [(entry, 0)]
    visited[entry] = True
    node: 'int32_t'
    idx: 'int32_t'
    while stack:
        top = stack[len(stack) - 1]
        node = __cast__('int32_t', top[0])
        idx = __cast__('int32_t', top[1])
        edges = __cast__('list', out[node])
        if idx < len(edges):
            stack[len(stack) - 1] = (node, idx + 1)
            ch = __cast__('int32_t', __cast__('dict', edges[idx])['dst'])
            if not __cast__('bint', visited[ch]):
                visited[ch] = True
                stack.append((ch, 0))
        else:
            post.append(node)
            stack.pop()
    return list(reversed(post))

def _run_rewrite_switch(f):
    nb = f.n_blocks
    b: 'int32_t'
    e: 'int32_t'
    es: 'int32_t'
    ec: 'int32_t'
    tv: 'int32_t'
    a0: 'int32_t'
    a1: 'int32_t'
    const_v: 'int32_t'
    other_v: 'int32_t'
    entry = f.entry_block
    changed = False
    out = [[] for _ in range(nb)]
    for b in range(nb):
        es = f.blocks[b].edge_start
        ec = f.blocks[b].edge_count
        for e in range(es, es + ec):
            __cast__('list', out[b]).append({'dst': f.edges[e].dst, 'ck': f.edges[e].cond_kind, 'cond': f.edges[e].cond, 'ci': f.edges[e].cond_is_int, 'key': e})
    test_val = [f.blocks[b].test_val for b in range(nb)]
    for b in range(nb):
        edges = __cast__('list', out[b])
        if len(edges) != 2:
            continue
        val_edge = None
        none_edge = None
        for ed in edges:
            if __cast__('int32_t', __cast__('dict', ed)['ck']) == EDGE_COND_VALUE and __cast__('dict', ed)['cond'] == 0.0:
                val_edge = __cast__('dict', ed)
            elif __cast__('int32_t', __cast__('dict', ed)['ck']) == EDGE_COND_NONE:
                none_edge = __cast__('dict', ed)
        if val_edge is None or none_edge is None:
            continue
        tv = __cast__('int32_t', test_val[b])
        if tv < 0 or f.instrs[tv].op != OP_Equal or f.instrs[tv].nargs != 2:
            continue
        a0 = __cast__('int32_t', f.args[f.instrs[tv].arg_start])
        a1 = __cast__('int32_t', f.args[f.instrs[tv].arg_start + 1])
        if f.instrs[a0].op == OPX_CONST:
            const_v = a0
            other_v = a1
        elif f.instrs[a1].op == OPX_CONST:
            other_v = a0
            const_v = a1
        else:
            continue
        test_val[b] = other_v
        none_edge['ck'] = EDGE_COND_VALUE
        none_edge['cond'] = f.consts[f.instrs[const_v].aux]
        none_edge['ci'] = 1 if f.instrs[const_v].flags & FLAG_CONST_IS_INT else 0
        val_edge['ck'] = EDGE_COND_NONE
        val_edge['cond'] = 0.0
        val_edge['ci'] = 0
        changed = True
    ext = _rsw_ext_ref(f)
    ic = [0] * nb
    _e: 'int32_t'
    _d: 'int32_t'
    for _e in range(f.n_edges):
        _d = __cast__('int32_t', f.edges[_e].dst)
        ic[_d] = __cast__('int32_t', ic[_d]) + 1
    processed = set()
    queue = [entry]
    while queue:
        b = __cast__('int32_t', queue.pop())
        if b in processed:
            continue
        processed.add(b)
        for ed in __cast__('list', out[b]):
            queue.append(__cast__('int32_t', __cast__('dict', ed)['dst']))
        default = None
        for ed in __cast__('list', out[b]):
            if __cast__('int32_t', __cast__('dict', ed)['ck']) == EDGE_COND_NONE:
                default = __cast__('dict', ed)
                break
        if default is None:
            continue
        nxt = __cast__('int32_t', default['dst'])
        if b == nxt or nxt == entry:
            continue
        if __cast__('int32_t', test_val[b]) < 0 or test_val[b] != test_val[nxt]:
            continue
        if not _rsw_block_empty(f, nxt):
            continue
        if __cast__('int32_t', ic[nxt]) > 1:
            continue
        if not _rsw_relocatable(f, nxt, ext):
            continue
        kept = [ed for ed in __cast__('list', out[b]) if ed is not default]
        if not _rsw_splice_safe(f, kept, __cast__('list', out[nxt]), nxt):
            continue
        existing = set()
        for ed in kept:
            if __cast__('int32_t', __cast__('dict', ed)['ck']) == EDGE_COND_VALUE:
                existing.add(__cast__('dict', ed)['cond'])
        for ed in __cast__('list', out[nxt]):
            _d = __cast__('int32_t', __cast__('dict', ed)['dst'])
            ic[_d] = __cast__('int32_t', ic[_d]) - 1
            if __cast__('int32_t', __cast__('dict', ed)['ck']) == EDGE_COND_VALUE and __cast__('dict', ed)['cond'] in existing:
                continue
            kept.append(ed)
            ic[_d] = __cast__('int32_t', ic[_d]) + 1
            if __cast__('int32_t', __cast__('dict', ed)['ck']) == EDGE_COND_VALUE:
                existing.add(__cast__('dict', ed)['cond'])
        out[b] = kept
        out[nxt] = []
        ic[nxt] = __cast__('int32_t', ic[nxt]) - 1
        changed = True
        processed.discard(b)
        queue.append(b)
    if not changed:
        return (f, False)
    reach = set(_rsw_rpo(out, entry, nb))
    pblocks = []
    vid: 'int32_t'
    istart: 'int32_t'
    icount: 'int32_t'
    incoming = _incoming_by_block(f)
    for b in range(nb):
        items = []
        istart = f.blocks[b].instr_start
        icount = f.blocks[b].instr_count
        for vid in range(istart, istart + icount):
            if f.instrs[vid].op == OPX_PHI:
                items.append(('i', vid, _phi_opmap_src(f, vid, incoming)))
            else:
                items.append(('i', vid, None))
        tv2 = __cast__('int32_t', test_val[b])
        test = ('o', tv2) if tv2 >= 0 else None
        edges = []
        for ed in __cast__('list', out[b]):
            edges.append([__cast__('int32_t', __cast__('dict', ed)['dst']), __cast__('int32_t', __cast__('dict', ed)['ck']), __cast__('double', __cast__('dict', ed)['cond']), __cast__('int32_t', __cast__('dict', ed)['ci']), __cast__('int32_t', __cast__('dict', ed)['key'])])
        pblocks.append({'items': items, 'test': test, 'edges': edges})
    relocate = []
    for b in range(nb):
        if b in reach:
            continue
        istart = f.blocks[b].instr_start
        icount = f.blocks[b].instr_count
        for vid in range(istart, istart + icount):
            if f.instrs[vid].op == OPX_CONST and vid in ext:
                relocate.append(vid)
    if relocate:
        __cast__('dict', pblocks[entry])['items'].extend([('i', v, None) for v in relocate])
    newf = _emit_from_model(f, pblocks, entry)
    return (newf, True)

def _run_sccp(f):
    sc = _SCCP(f)
    sc.run()
    order, keep_instr, const_override, out_spec, changed = sc.decisions()
    if not changed:
        return (f, False)
    newf = _build_compacted(f, order, keep_instr, const_override, out_spec)
    _collapse_trivial_phis(__cast__('Func', newf))
    return (newf, True)

def sccp(func):
    res = _run_sccp(func)
    return __cast__('Func', res[0])

def gvn(func):
    res = _run_gvn_inplace(func)
    return __cast__('Func', res[0])

def dce(func):
    res = _run_dce(func)
    return __cast__('Func', res[0])

def licm(func):
    res = _run_licm(func)
    return __cast__('Func', res[0])

def rewrite_switch(func):
    res = _run_rewrite_switch(func)
    return __cast__('Func', res[0])

def _fused_ptr_op(binop, shifted):
    if not shifted:
        if binop == __cast__('uint16_t', OP_Add):
            return OP_SetAddPointed
        if binop == __cast__('uint16_t', OP_Subtract):
            return OP_SetSubtractPointed
        if binop == __cast__('uint16_t', OP_Multiply):
            return OP_SetMultiplyPointed
        if binop == __cast__('uint16_t', OP_Divide):
            return OP_SetDividePointed
        if binop == __cast__('uint16_t', OP_Mod):
            return OP_SetModPointed
        if binop == __cast__('uint16_t', OP_Rem):
            return OP_SetRemPointed
        if binop == __cast__('uint16_t', OP_Power):
            return OP_SetPowerPointed
        return -1
    if binop == __cast__('uint16_t', OP_Add):
        return OP_SetAddShifted
    if binop == __cast__('uint16_t', OP_Subtract):
        return OP_SetSubtractShifted
    if binop == __cast__('uint16_t', OP_Multiply):
        return OP_SetMultiplyShifted
    if binop == __cast__('uint16_t', OP_Divide):
        return OP_SetDivideShifted
    if binop == __cast__('uint16_t', OP_Mod):
        return OP_SetModShifted
    if binop == __cast__('uint16_t', OP_Rem):
        return OP_SetRemShifted
    if binop == __cast__('uint16_t', OP_Power):
        return OP_SetPowerShifted
    return -1

def _is_one(f, vid):
    return f.instrs[vid].op == __cast__('uint16_t', OPX_CONST) and f.consts[f.instrs[vid].aux] == 1.0

def _no_effect_between(f, lo, hi):
    j: 'int32_t'
    for j in range(lo + 1, hi):
        if f.instrs[j].flags & FLAG_SIDE_EFFECT:
            return False
    return True

def _fuse_ptr_rmw(f):
    n = f.n_instrs
    i: 'int32_t'
    op: 'int32_t'
    present = False
    for i in range(n):
        op = f.instrs[i].op
        if (op == __cast__('uint16_t', OP_SetPointed) or op == __cast__('uint16_t', OP_SetShifted)) and f.instrs[i].flags & FLAG_STMT_ROOT:
            present = True
            break
    if not present:
        return False
    b: 'int32_t'
    tv: 'int32_t'
    astart: 'int32_t'
    nargs: 'int32_t'
    k: 'int32_t'
    a: 'int32_t'
    pid: 'int32_t'
    ivv: 'int32_t'
    uc = [0] * n
    for i in range(n):
        op = f.instrs[i].op
        astart = f.instrs[i].arg_start
        nargs = f.instrs[i].nargs
        for k in range(nargs):
            a = __cast__('int32_t', f.args[astart + k])
            uc[a] = __cast__('int32_t', uc[a]) + 1
        if op == OPX_GET or op == OPX_SET:
            pid = f.instrs[i].aux
            if f.places[pid].kind == PLACE_DYNAMIC_BLOCK:
                a = f.places[pid].block_ref
                uc[a] = __cast__('int32_t', uc[a]) + 1
            ivv = f.places[pid].index_val
            if ivv >= 0:
                uc[ivv] = __cast__('int32_t', uc[ivv]) + 1
    for b in range(f.n_blocks):
        tv = f.blocks[b].test_val
        if tv >= 0:
            uc[tv] = __cast__('int32_t', uc[tv]) + 1
    changed = False
    for i in range(n):
        op = f.instrs[i].op
        if not f.instrs[i].flags & FLAG_STMT_ROOT:
            continue
        if op == __cast__('uint16_t', OP_SetPointed):
            if _try_fuse_ptr(f, i, uc, 3, __cast__('uint16_t', OP_GetPointed), False):
                changed = True
        elif op == __cast__('uint16_t', OP_SetShifted):
            if _try_fuse_ptr(f, i, uc, 4, __cast__('uint16_t', OP_GetShifted), True):
                changed = True
    return changed

def _try_fuse_ptr(f, i, uc, naddr, get_op, shifted):
    astart = f.instrs[i].arg_start
    if f.instrs[i].nargs != naddr + 1:
        return False
    vid = __cast__('int32_t', f.args[astart + naddr])
    if __cast__('int32_t', uc[vid]) != 1 or f.instrs[vid].nargs != 2:
        return False
    vop = f.instrs[vid].op
    fused = _fused_ptr_op(vop, shifted)
    if fused < 0:
        return False
    g = __cast__('int32_t', f.args[f.instrs[vid].arg_start])
    w = __cast__('int32_t', f.args[f.instrs[vid].arg_start + 1])
    if f.instrs[g].op != get_op or f.instrs[g].nargs != naddr or __cast__('int32_t', uc[g]) != 1:
        return False
    gstart = f.instrs[g].arg_start
    k: 'int32_t'
    for k in range(naddr):
        if __cast__('int32_t', f.args[astart + k]) != __cast__('int32_t', f.args[gstart + k]):
            return False
    if f.instrs[g].block != f.instrs[i].block:
        return False
    if not _no_effect_between(f, g, i):
        return False
    inc_op: 'int32_t'
    dec_op: 'int32_t'
    if not shifted:
        inc_op = OP_IncrementPostPointed
        dec_op = OP_DecrementPostPointed
    else:
        inc_op = OP_IncrementPostShifted
        dec_op = OP_DecrementPostShifted
    if vop == __cast__('uint16_t', OP_Add) and _is_one(f, w):
        f.instrs[i].op = __cast__('uint16_t', inc_op)
        f.instrs[i].nargs = __cast__('int16_t', naddr)
    elif vop == __cast__('uint16_t', OP_Subtract) and _is_one(f, w):
        f.instrs[i].op = __cast__('uint16_t', dec_op)
        f.instrs[i].nargs = __cast__('int16_t', naddr)
    else:
        f.instrs[i].op = __cast__('uint16_t', fused)
        f.args[astart + naddr] = __cast__('uint32_t', w)
    return True

def _midend_pass(func):
    f1, c1 = _run_sccp(func)
    _, c2 = _run_gvn_inplace(__cast__('Func', f1))
    cb = _canon_branch_not(__cast__('Func', f1))
    cf = _fuse_ptr_rmw(__cast__('Func', f1))
    f2, c3 = _run_dce(__cast__('Func', f1))
    return (f2, c1 or c2 or c3 or cf or cb)

def midend_round(func, allow_repeat):
    res = _midend_pass(func)
    cur = __cast__('Func', res[0])
    ch = __cast__('bint', res[1])
    if allow_repeat and ch:
        res = _midend_pass(cur)
        cur = __cast__('Func', res[0])
    return cur

def midend_standard(func):
    res = _midend_pass(func)
    cur = __cast__('Func', res[0])
    ch = __cast__('bint', res[1])
    lres = _run_licm(cur)
    cur = __cast__('Func', lres[0])
    lch = __cast__('bint', lres[1])
    rres = _run_rewrite_switch(cur)
    cur = __cast__('Func', rres[0])
    rch = __cast__('bint', rres[1])
    if ch or lch or rch:
        res = _midend_pass(cur)
        cur = __cast__('Func', res[0])
    return cur

def _phase_sccp(func):
    return sccp(__cast__('Func', func))

def _phase_gvn(func):
    return gvn(__cast__('Func', func))

def _phase_dce(func):
    return dce(__cast__('Func', func))

def _phase_midend(func):
    return midend_round(__cast__('Func', func), True)

def _phase_licm(func):
    return licm(__cast__('Func', func))

def _phase_rewrite_switch(func):
    return rewrite_switch(__cast__('Func', func))

def _phase_midend_standard(func):
    return midend_standard(__cast__('Func', func))

def run_midend(entry, mode=None, callback=None, allow_repeat=False):
    func = cfg_cleanup(__cast__('Func', marshal_in(entry, mode, callback)), False)
    ssa = build_ssa(func)
    opt = midend_round(ssa, __cast__('bint', allow_repeat))
    lowered = out_of_ssa(opt)
    return to_basic_blocks(lowered)

def run_midend_standard(entry, mode=None, callback=None):
    func = cfg_cleanup(__cast__('Func', marshal_in(entry, mode, callback)), False)
    ssa = build_ssa(func)
    opt = midend_standard(ssa)
    lowered = out_of_ssa(opt)
    return to_basic_blocks(lowered)
from sonolus.backend._opt import driver as _driver
