from libc.stdint import int16_t, int32_t, int64_t, uint8_t, uint16_t, uint32_t, uint64_t
from libc.stdlib import free, realloc
from libc.string import memcpy
from libc.math import isinf, isnan
from sonolus.backend._opt._ops_gen import OPX_CONST, OPX_GET, OPX_PHI, OPX_SET, OPX_UNDEF, OP_RUNTIME_COUNT, OP_TABLE_SIZE, SONOLUS_OP_CONTROL_FLOW, SONOLUS_OP_NAMES, SONOLUS_OP_PURE, SONOLUS_OP_SIDE_EFFECTS
from sonolus.backend._opt._khash import khint_t, kh_destroy_i64i32, kh_get_i64i32, kh_init_i64i32, kh_put_i64i32
from sonolus.backend.ir import IRConst as IRConst, IRGet as IRGet, IRInstr as IRInstr, IRPureInstr as IRPureInstr, IRSet as IRSet
from sonolus.backend.ops import Op as _Op
from sonolus.backend.place import BlockPlace as BlockPlace, SSAPlace as SSAPlace, TempBlock as TempBlock
from sonolus.backend.blocks import BlockData as BlockData
from sonolus.backend.optimize.flow import BasicBlock as BasicBlock, FlowEdge as FlowEdge, traverse_cfg_reverse_postorder as traverse_cfg_reverse_postorder
_OPS = list(_Op)
_OP_TO_ID = {op: i for i, op in enumerate(_OPS)}
_ID_TO_OP = _OPS
_NARY_LEFT_FOLD_IDS = frozenset({_OP_TO_ID[_Op.Add], _OP_TO_ID[_Op.Multiply], _OP_TO_ID[_Op.Mod], _OP_TO_ID[_Op.Rem]})
RUNTIME_CONSTANT_BLOCKS = frozenset({'RuntimeEnvironment', 'RuntimeUI', 'RuntimeUIConfiguration', 'LevelData', 'LevelOption', 'LevelBucket', 'LevelScore', 'LevelLife', 'EngineRom', 'ArchetypeLife', 'RuntimeCanvas', 'PreviewData', 'PreviewOption', 'TutorialData'})
_CANON_NAN_BITS: 'uint64_t' = __cast__('uint64_t', 9221120237041090560)
_CANON_NAN: 'double' = 0.0

def _bits_to_double(b):
    result: 'double'
    memcpy(__addr__(result), __addr__(b), __sizeof__(result))
    return result

def _op_pure_c(op):
    return SONOLUS_OP_PURE[op] != 0
_CANON_NAN = _bits_to_double(_CANON_NAN_BITS)

def _grow(buf, cap, need, elemsize):
    newcap: 'int64_t'
    p: 'void*'
    if need <= cap[0]:
        return buf
    newcap = cap[0] if cap[0] > 0 else 8
    while newcap < need:
        newcap *= 2
    if newcap > 2147483647:
        raise MemoryError()
    p = realloc(buf, __cast__('unsigned size_t', newcap) * elemsize)
    if p == NULL:
        raise MemoryError()
    cap[0] = __cast__('int32_t', newcap)
    return p

def _edge_sort_key(edge):
    if edge.cond is None:
        return (1, 0.0)
    return (0, float(edge.cond))

class Func:

    def __cinit__(self):
        self.instrs = NULL
        self.n_instrs = 0
        self.cap_instrs = 0
        self.args = NULL
        self.n_args = 0
        self.cap_args = 0
        self.blocks = NULL
        self.n_blocks = 0
        self.cap_blocks = 0
        self.edges = NULL
        self.n_edges = 0
        self.cap_edges = 0
        self.consts = NULL
        self.n_consts = 0
        self.cap_consts = 0
        self.places = NULL
        self.n_places = 0
        self.cap_places = 0
        self.temps = NULL
        self.n_temps = 0
        self.cap_temps = 0
        self.entry_block = 0
        self.is_ssa = False
        self.undef_val = -1
        self._ssa_undef = None
        self.names = []
        self._const_intern = kh_init_i64i32()
        if self._const_intern == NULL:
            raise MemoryError()
        self._temp_intern = {}
        self._place_intern = {}
        self.blocks_type = None
        self.callback = None
        self._block_enum_by_id = {}
        self._block_map = {}

    def __dealloc__(self):
        free(self.instrs)
        free(self.args)
        free(self.blocks)
        free(self.edges)
        free(self.consts)
        free(self.places)
        free(self.temps)
        kh_destroy_i64i32(self._const_intern)

    def _alloc_instr(self):
        self.instrs = __cast__('Instr*', _grow(__cast__('void*', self.instrs), __addr__(self.cap_instrs), self.n_instrs + 1, __sizeof__(Instr)))
        i = self.n_instrs
        self.n_instrs += 1
        return i

    def _emit(self, op, flags, block, aux, arg_vids):
        nargs = len(arg_vids)
        astart = self.n_args
        k: 'int32_t'
        if nargs > 32767:
            raise ValueError(f'instruction operand count {nargs} exceeds the int16 limit (32767); the arena stores nargs as int16')
        for k in range(nargs):
            self.args = __cast__('uint32_t*', _grow(__cast__('void*', self.args), __addr__(self.cap_args), self.n_args + 1, __sizeof__(uint32_t)))
            self.args[self.n_args] = __cast__('uint32_t', __cast__('int32_t', arg_vids[k]))
            self.n_args += 1
        iid = self._alloc_instr()
        self.instrs[iid].op = op
        self.instrs[iid].flags = flags
        self.instrs[iid].block = block
        self.instrs[iid].arg_start = astart
        self.instrs[iid].nargs = __cast__('int16_t', nargs)
        self.instrs[iid].aux = aux
        return iid

    def _intern_const(self, d):
        bits: 'uint64_t'
        if isnan(d):
            d = _CANON_NAN
            bits = _CANON_NAN_BITS
        else:
            memcpy(__addr__(bits), __addr__(d), __sizeof__(bits))
        it = kh_get_i64i32(self._const_intern, bits)
        if it != self._const_intern.n_buckets:
            return self._const_intern.vals[it]
        cid = self.n_consts
        self.consts = __cast__('double*', _grow(__cast__('void*', self.consts), __addr__(self.cap_consts), self.n_consts + 1, __sizeof__('double')))
        self.consts[cid] = d
        self.n_consts += 1
        ret: 'int'
        it = kh_put_i64i32(self._const_intern, bits, __addr__(ret))
        if ret < 0:
            raise MemoryError()
        self._const_intern.vals[it] = cid
        return cid

    def _rebuild_const_intern(self):
        cid: 'int32_t'
        bits: 'uint64_t'
        ret: 'int'
        it: 'khint_t'
        for cid in range(self.n_consts):
            memcpy(__addr__(bits), __addr__(self.consts[cid]), __sizeof__(bits))
            it = kh_put_i64i32(self._const_intern, bits, __addr__(ret))
            if ret < 0:
                raise MemoryError()
            self._const_intern.vals[it] = cid
        return 0

    def _intern_temp(self, temp):
        if temp.size < 0:
            raise ValueError(f'TempBlock {temp.name} has negative size {temp.size}')
        key = (temp.name, temp.size)
        cached = self._temp_intern.get(key)
        if cached is not None:
            return __cast__('int32_t', cached)
        tid = self.n_temps
        name_id = len(self.names)
        self.names.append(temp.name)
        self.temps = __cast__('TempInfo*', _grow(__cast__('void*', self.temps), __addr__(self.cap_temps), self.n_temps + 1, __sizeof__(TempInfo)))
        self.temps[tid].name_id = name_id
        self.temps[tid].size = __cast__('int32_t', temp.size)
        self.n_temps += 1
        self._temp_intern[key] = tid
        return tid

    def _writable_for_block(self, member):
        if member is None:
            return True
        if self.callback is None:
            return False
        return self.callback in member.writable

    def _intern_place(self, place, block_id):
        if isinstance(place, SSAPlace):
            raise ValueError('SSA places are not valid marshal-in input (input must not be SSA)')
        if not isinstance(place, BlockPlace):
            raise ValueError(f'Unsupported place: {type(place).__name__}: {place}')
        block = place.block
        index = place.index
        py_offset = place.offset
        kind: 'uint8_t'
        flags = 0
        block_ref: 'int32_t'
        block_id_int: 'int32_t'
        index_val: 'int32_t'
        off: 'int32_t'
        folded_off: 'object'
        resolved_member = None
        if isinstance(block, TempBlock):
            block_ref = self._intern_temp(block)
            if block.size == 0:
                kind = PLACE_TEMP_SIZE0
            elif block.size == 1:
                kind = PLACE_TEMP_SCALAR
            else:
                kind = PLACE_TEMP_ARRAY
            flags |= PLACE_WRITABLE
        elif isinstance(block, (BlockPlace, IRPureInstr, IRInstr, IRGet)):
            block_ref = self._value_of(block, block_id)
            kind = PLACE_DYNAMIC_BLOCK
            flags |= PLACE_WRITABLE
        elif isinstance(block, (int, float)) and (not isinstance(block, bool)):
            kind = PLACE_REAL_BLOCK
            block_id_int = __cast__('int32_t', int(block))
            block_ref = block_id_int
            if isinstance(block, BlockData):
                resolved_member = block
                flags |= PLACE_BLOCK_IS_ENUM
                self._block_enum_by_id[block_id_int] = block
            elif self.blocks_type is not None:
                resolved_member = self._block_map.get(block_id_int)
            if self._writable_for_block(resolved_member):
                flags |= PLACE_WRITABLE
        else:
            raise ValueError(f'Unsupported block value: {type(block).__name__}: {block}')
        if isinstance(index, bool):
            raise ValueError(f'Unsupported index: {index}')
        if isinstance(index, int):
            index_val = -1
            folded_off = py_offset + index
        elif isinstance(index, IRConst):
            v = index.value
            if isinstance(v, int) and (not isinstance(v, bool)):
                index_val = -1
                folded_off = py_offset + v
            elif isinstance(v, float) and (not isinf(v)) and (not isnan(v)) and v.is_integer():
                index_val = -1
                folded_off = py_offset + int(v)
            else:
                index_val = self._value_of(index, block_id)
                folded_off = py_offset
        else:
            index_val = self._value_of(index, block_id)
            folded_off = py_offset
        if folded_off < -2147483648 or folded_off > 2147483647:
            raise ValueError(f'Constant memory offset {folded_off} is outside the int32 range')
        off = __cast__('int32_t', folded_off)
        if kind == PLACE_REAL_BLOCK and index_val == -1 and (not flags & PLACE_WRITABLE) and (resolved_member is not None) and (getattr(resolved_member, 'name', None) in RUNTIME_CONSTANT_BLOCKS):
            flags |= PLACE_RUNTIME_CONST
        key = (kind, block_ref, index_val, off, flags)
        cached = self._place_intern.get(key)
        if cached is not None:
            return __cast__('int32_t', cached)
        pid = self.n_places
        self.places = __cast__('PlaceInfo*', _grow(__cast__('void*', self.places), __addr__(self.cap_places), self.n_places + 1, __sizeof__(PlaceInfo)))
        self.places[pid].kind = kind
        self.places[pid].flags = flags
        self.places[pid].block_ref = block_ref
        self.places[pid].index_val = index_val
        self.places[pid].offset = off
        self.n_places += 1
        self._place_intern[key] = pid
        return pid

    def _value_of(self, node, block_id):
        if isinstance(node, IRConst):
            return self._emit_const(node.value, block_id)
        if isinstance(node, IRPureInstr):
            return self._emit_pure(node, block_id)
        if isinstance(node, IRInstr):
            return self._emit_impure(node, block_id)
        if isinstance(node, IRGet):
            pid = self._intern_place(node.place, block_id)
            return self._emit(OPX_GET, FLAG_PINNED, block_id, pid, [])
        if isinstance(node, BlockPlace):
            pid = self._intern_place(node, block_id)
            return self._emit(OPX_GET, FLAG_PINNED, block_id, pid, [])
        if isinstance(node, (int, float)) and (not isinstance(node, bool)):
            return self._emit_const(node, block_id)
        raise ValueError(f'Unsupported IR value: {type(node).__name__}: {node}')

    def _emit_const(self, value, block_id):
        flags = FLAG_PURE
        if isinstance(value, int) and (not isinstance(value, bool)):
            flags |= FLAG_CONST_IS_INT
        cid = self._intern_const(__cast__('double', float(value)))
        return self._emit(OPX_CONST, flags, block_id, cid, [])

    def _emit_pure(self, node, block_id):
        op_id = _OP_TO_ID[node.op]
        args = node.args
        n = len(args)
        fold: 'int32_t'
        a: 'int32_t'
        k: 'int32_t'
        if op_id in _NARY_LEFT_FOLD_IDS and n > 2:
            fold = self._value_of(args[0], block_id)
            for k in range(1, n):
                a = self._value_of(args[k], block_id)
                fold = self._emit(__cast__('uint16_t', op_id), FLAG_PURE, block_id, -1, [fold, a])
            return fold
        arg_vids = [self._value_of(args[k], block_id) for k in range(n)]
        return self._emit(__cast__('uint16_t', op_id), FLAG_PURE, block_id, -1, arg_vids)

    def _emit_impure(self, node, block_id):
        op_id = _OP_TO_ID[node.op]
        arg_vids = [self._value_of(a, block_id) for a in node.args]
        flags = FLAG_PINNED
        if node.op.side_effects:
            flags |= FLAG_SIDE_EFFECT
        return self._emit(__cast__('uint16_t', op_id), flags, block_id, -1, arg_vids)

    def _emit_stmt(self, stmt, block_id):
        vid: 'int32_t'
        pid: 'int32_t'
        if isinstance(stmt, IRSet):
            vid = self._value_of(stmt.value, block_id)
            pid = self._intern_place(stmt.place, block_id)
            self._emit(OPX_SET, FLAG_SIDE_EFFECT | FLAG_PINNED | FLAG_STMT_ROOT, block_id, pid, [vid])
        elif isinstance(stmt, IRInstr):
            vid = self._value_of(stmt, block_id)
            self.instrs[vid].flags |= FLAG_STMT_ROOT
        else:
            raise ValueError(f'Unsupported statement: {type(stmt).__name__}: {stmt} (expected IRSet or a bare side-effecting IRInstr)')
        return 0

    def _push_edge(self, src, dst, cond):
        self.edges = __cast__('Edge*', _grow(__cast__('void*', self.edges), __addr__(self.cap_edges), self.n_edges + 1, __sizeof__(Edge)))
        ei = self.n_edges
        self.edges[ei].src = src
        self.edges[ei].dst = dst
        if cond is None:
            self.edges[ei].cond_kind = EDGE_COND_NONE
            self.edges[ei].cond_is_int = 0
            self.edges[ei].cond = 0.0
        else:
            self.edges[ei].cond_kind = EDGE_COND_VALUE
            self.edges[ei].cond_is_int = 1 if isinstance(cond, int) and (not isinstance(cond, bool)) else 0
            self.edges[ei].cond = __cast__('double', float(cond))
        self.n_edges += 1
        return 0

    def _marshal(self, entry, mode, callback):
        self.callback = callback
        if mode is not None:
            self.blocks_type = mode.blocks
            self._block_map = {int(m): m for m in self.blocks_type}
        else:
            self.blocks_type = None
            self._block_map = {}
        rpo_blocks = list(traverse_cfg_reverse_postorder(entry))
        nb = len(rpo_blocks)
        i: 'int32_t'
        if nb == 0:
            raise ValueError('Empty CFG')
        self.blocks = __cast__('BlockInfo*', _grow(__cast__('void*', self.blocks), __addr__(self.cap_blocks), nb, __sizeof__(BlockInfo)))
        self.n_blocks = nb
        self.entry_block = 0
        block_id = {b: i for i, b in enumerate(rpo_blocks)}
        bid: 'int32_t'
        tv: 'int32_t'
        istart: 'int32_t'
        for bid in range(nb):
            pyb = rpo_blocks[bid]
            if pyb.phis:
                raise ValueError('block.phis must be empty on marshal-in (input is not SSA)')
            istart = self.n_instrs
            self.blocks[bid].instr_start = istart
            self.blocks[bid].phi_start = 0
            self.blocks[bid].phi_count = 0
            self.blocks[bid].rpo = bid
            self.blocks[bid].idom = -1
            for stmt in pyb.statements:
                self._emit_stmt(stmt, bid)
            tv = self._value_of(pyb.test, bid)
            self.blocks[bid].test_val = tv
            self.blocks[bid].instr_count = self.n_instrs - istart
            self.blocks[bid].edge_start = self.n_edges
            for e in sorted(pyb.outgoing, key=_edge_sort_key):
                self._push_edge(bid, __cast__('int32_t', block_id[e.dst]), e.cond)
            self.blocks[bid].edge_count = self.n_edges - self.blocks[bid].edge_start
        return 0

    def _make_const(self, d, is_int):
        pyd = d
        if is_int and (not isinf(d)) and (not isnan(d)) and pyd.is_integer():
            return IRConst(int(pyd))
        return IRConst(pyd)

    def _export_place(self, pid, names):
        kind = self.places[pid].kind
        flags = self.places[pid].flags
        block_ref = self.places[pid].block_ref
        index_val = self.places[pid].index_val
        offset = self.places[pid].offset
        if kind == PLACE_TEMP_SCALAR or kind == PLACE_TEMP_ARRAY or kind == PLACE_TEMP_SIZE0:
            block_obj = TempBlock(names[block_ref], self.temps[block_ref].size)
        elif kind == PLACE_REAL_BLOCK:
            if flags & PLACE_BLOCK_IS_ENUM:
                block_obj = self._block_enum_by_id[block_ref]
            else:
                block_obj = block_ref
        elif kind == PLACE_DYNAMIC_BLOCK:
            block_obj = self._export_value(block_ref, names, True)
        else:
            raise AssertionError('Bad place kind')
        if index_val < 0:
            return BlockPlace(block_obj, offset, 0)
        index_obj = self._export_value(index_val, names, True)
        return BlockPlace(block_obj, index_obj, offset)

    def _export_place_components(self, pid, names):
        kind = self.places[pid].kind
        block_ref = self.places[pid].block_ref
        index_val = self.places[pid].index_val
        offset = self.places[pid].offset
        block_obj: 'object'
        index_obj: 'object'
        if kind == PLACE_REAL_BLOCK:
            block_obj = self._make_const(__cast__('double', block_ref), True)
        elif kind == PLACE_DYNAMIC_BLOCK:
            block_obj = self._export_value(block_ref, names, False)
        else:
            raise AssertionError(f'fused RMW place kind {kind} is not allocated (temps must be lowered first)')
        if index_val < 0:
            index_obj = self._make_const(__cast__('double', offset), True)
        elif offset == 0:
            index_obj = self._export_value(index_val, names, False)
        else:
            index_obj = IRPureInstr(_Op.Add, [self._export_value(index_val, names, False), self._make_const(__cast__('double', offset), True)])
        return (block_obj, index_obj)

    def _export_value(self, vid, names, as_read_place):
        op = self.instrs[vid].op
        astart: 'int32_t'
        k: 'int32_t'
        nargs: 'int32_t'
        if op == OPX_CONST:
            return self._make_const(self.consts[self.instrs[vid].aux], self.instrs[vid].flags & FLAG_CONST_IS_INT)
        if op == OPX_GET:
            place_obj = self._export_place(self.instrs[vid].aux, names)
            if as_read_place:
                return place_obj
            return IRGet(place_obj)
        if op == OPX_SET:
            raise AssertionError('OPX_SET encountered in value position')
        op_member = _ID_TO_OP[op]
        astart = self.instrs[vid].arg_start
        nargs = self.instrs[vid].nargs
        arg_objs = [self._export_value(__cast__('int32_t', self.args[astart + k]), names, False) for k in range(nargs)]
        if op_member.pure:
            return IRPureInstr(op_member, arg_objs)
        return IRInstr(op_member, arg_objs)

    def _export_stmt(self, i, names):
        op = self.instrs[i].op
        if op == OPX_SET:
            place_obj = self._export_place(self.instrs[i].aux, names)
            value = self._export_value(__cast__('int32_t', self.args[self.instrs[i].arg_start]), names, False)
            return IRSet(place_obj, value)
        if op < OP_RUNTIME_COUNT and self.instrs[i].aux >= 0:
            return self._export_fused_rmw(i, op, names)
        return self._export_value(i, names, False)

    def _export_fused_rmw(self, i, op, names):
        pid = self.instrs[i].aux
        astart = self.instrs[i].arg_start
        nargs = self.instrs[i].nargs
        k: 'int32_t'
        block_obj, index_obj = self._export_place_components(pid, names)
        arg_objs = [block_obj, index_obj]
        for k in range(nargs):
            arg_objs.append(self._export_value(__cast__('int32_t', self.args[astart + k]), names, False))
        return IRInstr(_ID_TO_OP[op], arg_objs)

    def _assign_temp_names(self, names):
        counter = 0
        i: 'int32_t'
        pid: 'int32_t'
        kind: 'int32_t'
        tid: 'int32_t'
        op: 'uint16_t'
        for i in range(self.n_instrs):
            op = self.instrs[i].op
            if op == OPX_GET or op == OPX_SET:
                pid = self.instrs[i].aux
                kind = self.places[pid].kind
                if kind == PLACE_TEMP_SCALAR or kind == PLACE_TEMP_ARRAY or kind == PLACE_TEMP_SIZE0:
                    tid = self.places[pid].block_ref
                    if tid not in names:
                        names[tid] = f'v{counter}'
                        counter += 1

    def _export(self):
        if self.is_ssa:
            return self._export_ssa()
        nb = self.n_blocks
        bid: 'int32_t'
        i: 'int32_t'
        istart: 'int32_t'
        icount: 'int32_t'
        estart: 'int32_t'
        ecount: 'int32_t'
        tv: 'int32_t'
        cond: 'object'
        py_blocks = [BasicBlock() for _ in range(nb)]
        names = {}
        self._assign_temp_names(names)
        for bid in range(nb):
            blk = py_blocks[bid]
            istart = self.blocks[bid].instr_start
            icount = self.blocks[bid].instr_count
            stmts = []
            for i in range(istart, istart + icount):
                if self.instrs[i].flags & FLAG_STMT_ROOT:
                    stmts.append(self._export_stmt(i, names))
            blk.statements = stmts
            tv = self.blocks[bid].test_val
            if tv >= 0:
                blk.test = self._export_value(tv, names, False)
            else:
                blk.test = IRConst(0)
        self._wire_edges(py_blocks)
        return py_blocks[self.entry_block]

    def _wire_edges(self, py_blocks):
        bid: 'int32_t'
        i: 'int32_t'
        estart: 'int32_t'
        ecount: 'int32_t'
        cond: 'object'
        for bid in range(self.n_blocks):
            estart = self.blocks[bid].edge_start
            ecount = self.blocks[bid].edge_count
            for i in range(estart, estart + ecount):
                if self.edges[i].cond_kind == EDGE_COND_VALUE:
                    if self.edges[i].cond_is_int:
                        cond = int(self.edges[i].cond)
                    else:
                        cond = float(self.edges[i].cond)
                else:
                    cond = None
                src_b = py_blocks[self.edges[i].src]
                dst_b = py_blocks[self.edges[i].dst]
                edge = FlowEdge(src_b, dst_b, cond)
                src_b.outgoing.add(edge)
                dst_b.incoming.add(edge)

    def _export_ssa(self):
        nb = self.n_blocks
        bid: 'int32_t'
        i: 'int32_t'
        istart: 'int32_t'
        icount: 'int32_t'
        tv: 'int32_t'
        op: 'uint16_t'
        py_blocks = [BasicBlock() for _ in range(nb)]
        incoming = [[] for _ in range(nb)]
        for i in range(self.n_edges):
            incoming[self.edges[i].dst].append(i)
        place_of = {}
        counter = 0
        for bid in range(nb):
            istart = self.blocks[bid].instr_start
            icount = self.blocks[bid].instr_count
            for i in range(istart, istart + icount):
                op = self.instrs[i].op
                if op == OPX_CONST or op == OPX_UNDEF:
                    continue
                if self.instrs[i].flags & FLAG_STMT_ROOT:
                    continue
                if op == OPX_PHI:
                    nm = self.names[self.temps[self.instrs[i].aux].name_id]
                else:
                    nm = 'v'
                place_of[i] = SSAPlace(nm, counter)
                counter += 1
        for bid in range(nb):
            blk = py_blocks[bid]
            blk.phis = self._export_phis(bid, place_of, py_blocks, incoming)
            istart = self.blocks[bid].instr_start
            icount = self.blocks[bid].instr_count
            stmts = []
            for i in range(istart, istart + icount):
                op = self.instrs[i].op
                if op == OPX_CONST or op == OPX_UNDEF or op == OPX_PHI:
                    continue
                if self.instrs[i].flags & FLAG_STMT_ROOT:
                    if op == OPX_SET:
                        place_obj = self._ssa_export_place(self.instrs[i].aux, place_of)
                        value = self._ssa_ref(__cast__('int32_t', self.args[self.instrs[i].arg_start]), place_of)
                        stmts.append(IRSet(place_obj, value))
                    else:
                        stmts.append(self._ssa_build_op(i, place_of))
                else:
                    stmts.append(IRSet(place_of[i], self._ssa_build_tree(i, place_of)))
            blk.statements = stmts
            tv = self.blocks[bid].test_val
            if tv >= 0:
                blk.test = self._ssa_ref(tv, place_of)
            else:
                blk.test = IRConst(0)
        self._wire_edges(py_blocks)
        return py_blocks[self.entry_block]

    def _ssa_build_tree(self, vid, place_of):
        op = self.instrs[vid].op
        if op == OPX_GET:
            return IRGet(self._ssa_export_place(self.instrs[vid].aux, place_of))
        return self._ssa_build_op(vid, place_of)

    def _ssa_build_op(self, vid, place_of):
        op = self.instrs[vid].op
        astart = self.instrs[vid].arg_start
        nargs = self.instrs[vid].nargs
        k: 'int32_t'
        op_member = _ID_TO_OP[op]
        arg_objs = [self._ssa_ref(__cast__('int32_t', self.args[astart + k]), place_of) for k in range(nargs)]
        if op_member.pure:
            return IRPureInstr(op_member, arg_objs)
        return IRInstr(op_member, arg_objs)

    def _ssa_ref(self, vid, place_of):
        op = self.instrs[vid].op
        if op == OPX_CONST:
            return self._make_const(self.consts[self.instrs[vid].aux], self.instrs[vid].flags & FLAG_CONST_IS_INT)
        if op == OPX_UNDEF:
            return IRGet(SSAPlace('undef', 0))
        return IRGet(place_of[vid])

    def _ssa_phi_src(self, vid, place_of):
        op = self.instrs[vid].op
        if op == OPX_CONST:
            return self._make_const(self.consts[self.instrs[vid].aux], self.instrs[vid].flags & FLAG_CONST_IS_INT)
        if op == OPX_UNDEF:
            return SSAPlace('undef', 0)
        return place_of[vid]

    def _ssa_export_place(self, pid, place_of):
        kind = self.places[pid].kind
        flags = self.places[pid].flags
        block_ref = self.places[pid].block_ref
        index_val = self.places[pid].index_val
        offset = self.places[pid].offset
        if kind == PLACE_TEMP_SCALAR or kind == PLACE_TEMP_ARRAY or kind == PLACE_TEMP_SIZE0:
            block_obj = TempBlock(self.names[self.temps[block_ref].name_id], self.temps[block_ref].size)
        elif kind == PLACE_REAL_BLOCK:
            if flags & PLACE_BLOCK_IS_ENUM:
                block_obj = self._block_enum_by_id[block_ref]
            else:
                block_obj = block_ref
        elif kind == PLACE_DYNAMIC_BLOCK:
            block_obj = self._ssa_ref(block_ref, place_of)
        else:
            raise AssertionError('Bad place kind')
        if index_val < 0:
            return BlockPlace(block_obj, offset, 0)
        return BlockPlace(block_obj, self._ssa_ref(index_val, place_of), offset)

    def _export_phis(self, bid, place_of, py_blocks, incoming):
        inc = incoming[bid]
        result = {}
        pi: 'int32_t'
        k: 'int32_t'
        astart: 'int32_t'
        nargs: 'int32_t'
        pstart = self.blocks[bid].phi_start
        pcount = self.blocks[bid].phi_count
        src_idx: 'int32_t'
        vid: 'int32_t'
        for pi in range(pstart, pstart + pcount):
            astart = self.instrs[pi].arg_start
            nargs = self.instrs[pi].nargs
            if nargs != len(inc):
                raise AssertionError('Phi arity does not match incoming edge count')
            per_pred = {}
            vid_per_src = {}
            for k in range(nargs):
                src_idx = self.edges[inc[k]].src
                vid = __cast__('int32_t', self.args[astart + k])
                if src_idx in vid_per_src:
                    if vid_per_src[src_idx] != vid:
                        raise ValueError('Parallel edges from the same predecessor carry unequal phi operands')
                    continue
                vid_per_src[src_idx] = vid
                per_pred[py_blocks[src_idx]] = self._ssa_phi_src(vid, place_of)
            result[place_of[pi]] = per_pred
        return result

    def _dom(self, a, b):
        r = b
        nr: 'int32_t'
        while True:
            if r == a:
                return True
            if r == self.entry_block:
                return False
            nr = self.blocks[r].idom
            if nr < 0 or nr == r:
                return False
            r = nr

    def verify(self):
        i: 'int32_t'
        b: 'int32_t'
        k: 'int32_t'
        a: 'int32_t'
        astart: 'int32_t'
        nargs: 'int32_t'
        istart: 'int32_t'
        icount: 'int32_t'
        estart: 'int32_t'
        ecount: 'int32_t'
        pid: 'int32_t'
        tv: 'int32_t'
        iv: 'int32_t'
        inc: 'int32_t'
        pi: 'int32_t'
        ssa = self.is_ssa
        op: 'uint16_t'
        kind: 'uint8_t'
        cval: 'double'
        uw = self._ssa_undef if self._ssa_undef is not None else set()
        for i in range(self.n_instrs):
            b = self.instrs[i].block
            assert 0 <= b < self.n_blocks, f'instr {i}: block {b} out of range'
            astart = self.instrs[i].arg_start
            nargs = self.instrs[i].nargs
            assert nargs >= 0, f'instr {i}: negative nargs'
            assert astart + nargs <= self.n_args, f'instr {i}: args slice out of range'
            op = self.instrs[i].op
            if op == OPX_PHI:
                assert ssa, f'instr {i}: OPX_PHI outside SSA form'
                self._verify_phi(i)
            else:
                for k in range(nargs):
                    a = __cast__('int32_t', self.args[astart + k])
                    assert 0 <= a < self.n_instrs, f'instr {i}: arg {a} out of range'
                    assert a < i, f'instr {i}: uses later value {a} (def-before-use)'
                    if ssa:
                        assert self._dom(self.instrs[a].block, b) or a in uw, f'instr {i}: arg {a} def does not dominate use'
                    else:
                        assert self.instrs[a].block == b, f'instr {i}: arg {a} from another block'
            if op == OPX_CONST:
                assert 0 <= self.instrs[i].aux < self.n_consts, f'instr {i}: const id out of range'
            elif op == OPX_GET or op == OPX_SET:
                assert 0 <= self.instrs[i].aux < self.n_places, f'instr {i}: place id out of range'
            elif op == OPX_PHI:
                assert 0 <= self.instrs[i].aux < self.n_temps, f'instr {i}: phi temp out of range'
            elif op == OPX_UNDEF:
                assert ssa, f'instr {i}: OPX_UNDEF outside SSA form'
            else:
                assert op < OP_RUNTIME_COUNT, f'instr {i}: unexpected synthetic op {op}'
                assert bool(self.instrs[i].flags & FLAG_PURE) == _op_pure_c(op), f'instr {i}: purity flag mismatch'
        for b in range(self.n_blocks):
            istart = self.blocks[b].instr_start
            icount = self.blocks[b].instr_count
            assert istart + icount <= self.n_instrs, f'block {b}: instr slice out of range'
            for i in range(istart, istart + icount):
                assert self.instrs[i].block == b, f'block {b}: instr {i} claims another block'
            tv = self.blocks[b].test_val
            assert tv == -1 or 0 <= tv < self.n_instrs, f'block {b}: bad test value'
            estart = self.blocks[b].edge_start
            ecount = self.blocks[b].edge_count
            assert estart + ecount <= self.n_edges, f'block {b}: edge slice out of range'
            seen_conds = {}
            for i in range(estart, estart + ecount):
                assert self.edges[i].src == b, f'block {b}: edge {i} has wrong src'
                assert 0 <= self.edges[i].dst < self.n_blocks, f'block {b}: edge {i} bad dst'
                assert self.edges[i].cond_kind == EDGE_COND_NONE or self.edges[i].cond_kind == EDGE_COND_VALUE
                if self.edges[i].cond_kind == EDGE_COND_NONE:
                    cond_key = None
                else:
                    cval = self.edges[i].cond
                    cond_key = int(cval) if self.edges[i].cond_is_int else cval
                if cond_key in seen_conds:
                    assert seen_conds[cond_key] == self.edges[i].dst, f'block {b}: parallel edges with the same case {cond_key} target different blocks'
                else:
                    seen_conds[cond_key] = self.edges[i].dst
            pi = self.blocks[b].phi_start
            assert self.blocks[b].phi_count >= 0
            if self.blocks[b].phi_count > 0:
                assert ssa, f'block {b}: phis outside SSA form'
                inc = 0
                for i in range(self.n_edges):
                    if self.edges[i].dst == b:
                        inc += 1
                for i in range(pi, pi + self.blocks[b].phi_count):
                    assert self.instrs[i].op == OPX_PHI, f'block {b}: phi slice not all OPX_PHI'
                    assert self.instrs[i].nargs == inc, f'block {b}: phi arity mismatch'
        for pid in range(self.n_places):
            kind = self.places[pid].kind
            if kind == PLACE_TEMP_SCALAR or kind == PLACE_TEMP_ARRAY or kind == PLACE_TEMP_SIZE0:
                assert 0 <= self.places[pid].block_ref < self.n_temps, f'place {pid}: temp id out of range'
            elif kind == PLACE_DYNAMIC_BLOCK:
                assert 0 <= self.places[pid].block_ref < self.n_instrs, f'place {pid}: block value out of range'
            iv = self.places[pid].index_val
            assert iv == -1 or 0 <= iv < self.n_instrs, f'place {pid}: bad index value'
        return True

    def _verify_phi(self, i):
        uw = self._ssa_undef if self._ssa_undef is not None else set()
        b = self.instrs[i].block
        astart = self.instrs[i].arg_start
        nargs = self.instrs[i].nargs
        k: 'int32_t'
        a: 'int32_t'
        ei: 'int32_t'
        src: 'int32_t'
        inc = [ei for ei in range(self.n_edges) if self.edges[ei].dst == b]
        assert len(inc) == nargs, f'instr {i}: phi arity != incoming edges'
        vid_per_src = {}
        for k in range(nargs):
            a = __cast__('int32_t', self.args[astart + k])
            assert 0 <= a < self.n_instrs, f'instr {i}: phi operand {a} out of range'
            assert self._dom(self.instrs[a].block, self.edges[inc[k]].src) or a in uw, f'instr {i}: phi operand {a} does not dominate predecessor exit'
            src = self.edges[inc[k]].src
            if src in vid_per_src:
                assert vid_per_src[src] == a, f'instr {i}: parallel edges from predecessor {src} carry unequal phi operands'
            else:
                vid_per_src[src] = a

    def stats(self):
        i: 'int32_t'
        nphi = 0
        for i in range(self.n_instrs):
            if self.instrs[i].op == OPX_PHI:
                nphi += 1
        return {'instrs': self.n_instrs, 'blocks': self.n_blocks, 'edges': self.n_edges, 'consts': self.n_consts, 'places': self.n_places, 'temps': self.n_temps, 'args': self.n_args, 'phis': nphi}

    def intern_const(self, value):
        return self._intern_const(__cast__('double', float(value)))

    def get_const(self, cid):
        if cid < 0 or cid >= self.n_consts:
            raise IndexError('Const id out of range')
        return self.consts[cid]

def op_table_size():
    return OP_TABLE_SIZE

def op_runtime_count():
    return OP_RUNTIME_COUNT

def op_table_entry(op_id):
    if op_id < 0 or op_id >= OP_TABLE_SIZE:
        raise IndexError('Op id out of range')
    nm = SONOLUS_OP_NAMES[op_id]
    return (__cast__('bytes', nm).decode('ascii'), __cast__('int', SONOLUS_OP_PURE[op_id]), __cast__('int', SONOLUS_OP_SIDE_EFFECTS[op_id]), __cast__('int', SONOLUS_OP_CONTROL_FLOW[op_id]))

def marshal_in(entry, mode=None, callback=None):
    func = Func()
    func._marshal(entry, mode, callback)
    return func

def to_basic_blocks(func):
    if not isinstance(func, Func):
        raise TypeError('Expected a Func arena')
    return __cast__('Func', func)._export()
_PHASE_REGISTRY = {}

def register_phase(name, fn):
    _PHASE_REGISTRY[name] = fn

def debug_run(entry, mode=None, callback=None, phases=None):
    func = Func()
    func._marshal(entry, mode, callback)
    func.verify()
    if phases:
        if not _PHASE_REGISTRY:
            from sonolus.backend._opt import driver as _driver
        for ph in phases:
            fn = _PHASE_REGISTRY.get(ph)
            if fn is None:
                raise ValueError(f'Unknown optimizer phase {ph}')
            func = fn(func)
            func.verify()
    return func._export()

def marshal_stats(entry, mode=None, callback=None):
    func = Func()
    func._marshal(entry, mode, callback)
    return func.stats()
