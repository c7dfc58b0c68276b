from libc.stdint import int32_t, uint16_t
from libc.math import isfinite, isinf, isnan
from sonolus.backend._opt.ir import Func, FLAG_STMT_ROOT, PLACE_REAL_BLOCK, PLACE_DYNAMIC_BLOCK, EDGE_COND_NONE
from sonolus.backend._opt._ops_gen import OPX_CONST, OPX_GET, OPX_SET, OP_Add, OP_DecrementPost, OP_DecrementPostShifted, OP_IncrementPost, OP_IncrementPostShifted, OP_Multiply, OP_Mod, OP_Rem, OP_RUNTIME_COUNT, OP_SetAdd, OP_SetAddShifted, OP_SetDivide, OP_SetDivideShifted, OP_SetMod, OP_SetModShifted, OP_SetMultiply, OP_SetMultiplyShifted, OP_SetPower, OP_SetPowerShifted, OP_SetRem, OP_SetRemShifted, OP_SetSubtract, OP_SetSubtractShifted
from sonolus.backend.node import FunctionNode as FunctionNode
from sonolus.backend.ops import Op as _Op
_ID_TO_OP = list(_Op)
_OP_IF = _Op.If
_OP_EQUAL = _Op.Equal
_OP_GET = _Op.Get
_OP_SET = _Op.Set
_OP_ADD = _Op.Add
_OP_EXECUTE = _Op.Execute
_OP_BLOCK = _Op.Block
_OP_JUMPLOOP = _Op.JumpLoop
_OP_SWITCH_INT_DEFAULT = _Op.SwitchIntegerWithDefault
_OP_SWITCH_DEFAULT = _Op.SwitchWithDefault
_OP_GET_SHIFTED = _Op.GetShifted
_OP_SET_SHIFTED = _Op.SetShifted
_ENGINE_ROM: 'int32_t' = 3000

def _shifted_fused_op(op):
    if op == __cast__('uint16_t', OP_SetAdd):
        return OP_SetAddShifted
    if op == __cast__('uint16_t', OP_SetSubtract):
        return OP_SetSubtractShifted
    if op == __cast__('uint16_t', OP_SetMultiply):
        return OP_SetMultiplyShifted
    if op == __cast__('uint16_t', OP_SetDivide):
        return OP_SetDivideShifted
    if op == __cast__('uint16_t', OP_SetMod):
        return OP_SetModShifted
    if op == __cast__('uint16_t', OP_SetRem):
        return OP_SetRemShifted
    if op == __cast__('uint16_t', OP_SetPower):
        return OP_SetPowerShifted
    if op == __cast__('uint16_t', OP_IncrementPost):
        return OP_IncrementPostShifted
    if op == __cast__('uint16_t', OP_DecrementPost):
        return OP_DecrementPostShifted
    return -1

def _is_flattenable(op):
    return op == __cast__('uint16_t', OP_Add) or op == __cast__('uint16_t', OP_Multiply) or op == __cast__('uint16_t', OP_Mod) or (op == __cast__('uint16_t', OP_Rem))

def _cond_is_integral(cond):
    if type(cond) is int:
        return True
    if not isfinite(__cast__('double', cond)):
        return False
    return int(cond) == cond

class _Emitter:
    func: 'Func'
    _fn_table: 'dict'
    _int_leaves: 'dict'
    _float_leaves: 'dict'
    _val_cache: 'dict'
    _pin: 'list'
    _block_map: 'list'
    _exit_index: 'int32_t'

    def __cinit__(self, func):
        self.func = func
        self._fn_table = {}
        self._int_leaves = {}
        self._float_leaves = {}
        self._val_cache = {}
        self._pin = []
        self._block_map = None
        self._exit_index = func.n_blocks

    def _int_leaf(self, v):
        obj = self._int_leaves.get(v)
        if obj is None:
            self._int_leaves[v] = v
            self._pin.append(v)
            return v
        return obj

    def _float_leaf(self, v):
        obj = self._float_leaves.get(v)
        if obj is None:
            self._float_leaves[v] = v
            self._pin.append(v)
            return v
        return obj

    def _intern_fn(self, op_member, children):
        keyparts = [id(op_member)]
        c: 'object'
        for c in children:
            keyparts.append(id(c))
        key = tuple(keyparts)
        node = self._fn_table.get(key)
        if node is None:
            node = FunctionNode(op_member, tuple(children))
            self._fn_table[key] = node
            self._pin.append(node)
        return node

    def _rom_read(self, k):
        return self._intern_fn(_OP_GET, [self._int_leaf(_ENGINE_ROM), self._int_leaf(k)])

    def _emit_numeric(self, v):
        pv: 'object'
        if isnan(v):
            return self._rom_read(0)
        if isinf(v):
            return self._rom_read(1 if v > 0 else 2)
        pv = v
        if pv.is_integer():
            return self._int_leaf(int(pv))
        return self._float_leaf(pv)

    def _leaf_cond(self, cond):
        if type(cond) is int:
            return self._int_leaf(cond)
        return self._float_leaf(cond)

    def _emit_value(self, vid):
        cached = self._val_cache.get(vid)
        if cached is not None:
            return cached
        op = self.func.instrs[vid].op
        result: 'object'
        if op == __cast__('uint16_t', OPX_CONST):
            result = self._emit_numeric(self.func.consts[self.func.instrs[vid].aux])
        elif op == __cast__('uint16_t', OPX_GET):
            result = self._emit_get(self.func.instrs[vid].aux)
        elif op == __cast__('uint16_t', OPX_SET):
            raise AssertionError('OPX_SET encountered in value position')
        else:
            result = self._emit_op(vid, op)
        self._val_cache[vid] = result
        return result

    def _flatten_left_spine(self, op_member, flattenable, children):
        first: 'object'
        if flattenable and len(children) > 0:
            first = children[0]
            if type(first) is FunctionNode and first.func == op_member:
                children = list(first.args) + children[1:]
        return self._intern_fn(op_member, children)

    def _emit_op(self, vid, op):
        astart = self.func.instrs[vid].arg_start
        nargs = self.func.instrs[vid].nargs
        k: 'int32_t'
        children = []
        for k in range(nargs):
            children.append(self._emit_value(__cast__('int32_t', self.func.args[astart + k])))
        return self._flatten_left_spine(_ID_TO_OP[op], _is_flattenable(op), children)

    def _emit_get(self, pid):
        shifted = self._shifted_components(pid)
        if shifted is not None:
            return self._intern_fn(_OP_GET_SHIFTED, list(shifted))
        block_node, index_node = self._place_components(pid)
        return self._intern_fn(_OP_GET, [block_node, index_node])

    def _shifted_components(self, pid):
        kind = self.func.places[pid].kind
        block_ref = self.func.places[pid].block_ref
        index_val = self.func.places[pid].index_val
        offset = self.func.places[pid].offset
        iastart: 'int32_t'
        a0: 'int32_t'
        a1: 'int32_t'
        iop: 'uint16_t'
        block_node: 'object'
        offset_node: 'object'
        if index_val < 0:
            return None
        if kind != __cast__('int32_t', PLACE_REAL_BLOCK) and kind != __cast__('int32_t', PLACE_DYNAMIC_BLOCK):
            return None
        iop = self.func.instrs[index_val].op
        if kind == __cast__('int32_t', PLACE_REAL_BLOCK):
            block_node = self._emit_numeric(__cast__('double', block_ref))
        else:
            block_node = self._emit_value(block_ref)
        offset_node = self._emit_numeric(__cast__('double', offset))
        if iop == __cast__('uint16_t', OP_Multiply) and self.func.instrs[index_val].nargs == 2:
            iastart = self.func.instrs[index_val].arg_start
            a0 = __cast__('int32_t', self.func.args[iastart])
            a1 = __cast__('int32_t', self.func.args[iastart + 1])
            return (block_node, offset_node, self._emit_value(a0), self._emit_value(a1))
        if offset != 0 and iop != __cast__('uint16_t', OP_Add):
            return (block_node, offset_node, self._emit_value(index_val), self._int_leaf(1))
        return None

    def _place_components(self, pid):
        kind = self.func.places[pid].kind
        block_ref = self.func.places[pid].block_ref
        index_val = self.func.places[pid].index_val
        offset = self.func.places[pid].offset
        block_node: 'object'
        index_node: 'object'
        if kind == __cast__('int32_t', PLACE_REAL_BLOCK):
            block_node = self._emit_numeric(__cast__('double', block_ref))
        elif kind == __cast__('int32_t', PLACE_DYNAMIC_BLOCK):
            block_node = self._emit_value(block_ref)
        else:
            raise AssertionError(f'temp place kind {kind} reached emission (temps must be allocated first)')
        if index_val < 0:
            index_node = self._emit_numeric(__cast__('double', offset))
        elif offset == 0:
            index_node = self._emit_value(index_val)
        else:
            index_node = self._flatten_left_spine(_OP_ADD, True, [self._emit_value(index_val), self._emit_numeric(__cast__('double', offset))])
        return (block_node, index_node)

    def _emit_set(self, vid):
        pid = self.func.instrs[vid].aux
        val_vid = __cast__('int32_t', self.func.args[self.func.instrs[vid].arg_start])
        shifted = self._shifted_components(pid)
        value_node: 'object'
        if shifted is not None:
            value_node = self._emit_value(val_vid)
            return self._intern_fn(_OP_SET_SHIFTED, list(shifted) + [value_node])
        block_node, index_node = self._place_components(pid)
        value_node = self._emit_value(val_vid)
        return self._intern_fn(_OP_SET, [block_node, index_node, value_node])

    def _emit_fused_rmw(self, i, op):
        pid = self.func.instrs[i].aux
        astart = self.func.instrs[i].arg_start
        nargs = self.func.instrs[i].nargs
        k: 'int32_t'
        sop = _shifted_fused_op(op)
        shifted = self._shifted_components(pid) if sop >= 0 else None
        children: 'list'
        if shifted is not None:
            children = list(shifted)
            for k in range(nargs):
                children.append(self._emit_value(__cast__('int32_t', self.func.args[astart + k])))
            return self._intern_fn(_ID_TO_OP[sop], children)
        block_node, index_node = self._place_components(pid)
        children = [block_node, index_node]
        for k in range(nargs):
            children.append(self._emit_value(__cast__('int32_t', self.func.args[astart + k])))
        return self._intern_fn(_ID_TO_OP[op], children)

    def _emit_stmt(self, i):
        op = self.func.instrs[i].op
        if op == __cast__('uint16_t', OPX_SET):
            return self._emit_set(i)
        if op < __cast__('uint16_t', OP_RUNTIME_COUNT) and self.func.instrs[i].aux >= 0:
            return self._emit_fused_rmw(i, op)
        return self._emit_value(i)

    def _emit_test(self, bid):
        return self._emit_value(self.func.blocks[bid].test_val)

    def _emit_terminator(self, bid):
        estart = self.func.blocks[bid].edge_start
        ecount = self.func.blocks[bid].edge_count
        exit_index = self._exit_index
        i: 'int32_t'
        pc: 'object'
        cond_key: 'object'
        outgoing = {}
        for i in range(estart, estart + ecount):
            if self.func.edges[i].cond_kind == __cast__('int32_t', EDGE_COND_NONE):
                cond_key = None
            else:
                pc = self.func.edges[i].cond
                cond_key = int(pc) if self.func.edges[i].cond_is_int else pc
            outgoing[cond_key] = __cast__('int', __cast__('int32_t', self._block_map[self.func.edges[i].dst]))
        return self._terminator_node(bid, outgoing, exit_index)

    def _terminator_node(self, bid, outgoing, exit_index):
        value_conds = [c for c in outgoing if c is not None]
        has_none = None in outgoing
        test_node: 'object'
        eq_node: 'object'
        c: 'object'
        if len(outgoing) == 0:
            return self._int_leaf(exit_index)
        if len(outgoing) == 1 and has_none:
            return self._int_leaf(outgoing[None])
        if len(outgoing) == 2 and has_none and (0 in outgoing):
            test_node = self._emit_test(bid)
            return self._intern_fn(_OP_IF, [test_node, self._int_leaf(outgoing[None]), self._int_leaf(outgoing[0])])
        if has_none and len(value_conds) == 1:
            c = value_conds[0]
            test_node = self._emit_test(bid)
            eq_node = self._intern_fn(_OP_EQUAL, [test_node, self._emit_numeric(__cast__('double', c))])
            return self._intern_fn(_OP_IF, [eq_node, self._int_leaf(outgoing[c]), self._int_leaf(outgoing[None])])
        return self._switch_node(bid, outgoing, value_conds, has_none, exit_index)

    def _switch_node(self, bid, outgoing, value_conds, has_none, exit_index):
        args = [self._emit_test(bid)]
        default_val = exit_index
        nconds = len(value_conds)
        cond: 'object'
        target: 'object'
        ci: 'int32_t'
        span: 'int32_t'
        maxc: 'object'
        span_obj: 'object'
        if nconds > 0 and min(value_conds) == 0 and all((_cond_is_integral(c) for c in value_conds)):
            maxc = int(max(value_conds))
            span_obj = maxc + 1
            if span_obj <= 2 * nconds:
                span = __cast__('int32_t', span_obj)
                if has_none:
                    default_val = outgoing[None]
                for ci in range(span):
                    args.append(self._int_leaf(outgoing.get(ci, default_val)))
                args.append(self._int_leaf(default_val))
                return self._intern_fn(_OP_SWITCH_INT_DEFAULT, args)
        for cond, target in outgoing.items():
            if cond is None:
                default_val = target
                continue
            args.append(self._leaf_cond(cond))
            args.append(self._int_leaf(target))
        args.append(self._int_leaf(default_val))
        return self._intern_fn(_OP_SWITCH_DEFAULT, args)

    def _emit_block(self, bid):
        istart = self.func.blocks[bid].instr_start
        icount = self.func.blocks[bid].instr_count
        i: 'int32_t'
        statements = []
        for i in range(istart, istart + icount):
            if self.func.instrs[i].flags & __cast__('int32_t', FLAG_STMT_ROOT):
                statements.append(self._emit_stmt(i))
        statements.append(self._emit_terminator(bid))
        return self._intern_fn(_OP_EXECUTE, statements)

    def _compute_block_map(self):
        nb = self.func.n_blocks
        bid: 'int32_t'
        e: 'int32_t'
        i: 'int32_t'
        istart: 'int32_t'
        icount: 'int32_t'
        c: 'int32_t'
        has_stmt: 'bint'
        indeg = [0] * nb
        for e in range(self.func.n_edges):
            indeg[self.func.edges[e].dst] = __cast__('int32_t', indeg[self.func.edges[e].dst]) + 1
        elided = [False] * nb
        for bid in range(nb):
            if bid == self.func.entry_block:
                continue
            if self.func.blocks[bid].edge_count != 0:
                continue
            if __cast__('int32_t', indeg[bid]) < 2:
                continue
            istart = self.func.blocks[bid].instr_start
            icount = self.func.blocks[bid].instr_count
            has_stmt = False
            for i in range(istart, istart + icount):
                if self.func.instrs[i].flags & __cast__('int32_t', FLAG_STMT_ROOT):
                    has_stmt = True
                    break
            if not has_stmt:
                elided[bid] = True
        self._block_map = [0] * nb
        c = 0
        for bid in range(nb):
            if not __cast__('bint', elided[bid]):
                self._block_map[bid] = c
                c += 1
        self._exit_index = c
        for bid in range(nb):
            if __cast__('bint', elided[bid]):
                self._block_map[bid] = c

    def run(self):
        nb = self.func.n_blocks
        bid: 'int32_t'
        self._compute_block_map()
        block_nodes = []
        for bid in range(nb):
            if __cast__('int32_t', self._block_map[bid]) != self._exit_index:
                block_nodes.append(self._emit_block(bid))
        block_nodes.append(self._int_leaf(0))
        jumploop = self._intern_fn(_OP_JUMPLOOP, block_nodes)
        return self._intern_fn(_OP_BLOCK, [jumploop])

def emit_func(func):
    em = _Emitter(func)
    return em.run()

def emit_cfg(entry, mode=None, callback=None):
    func = Func()
    func._marshal(entry, mode, callback)
    return emit_func(func)
