"""Front end for the compiled reader: Cython's own parser -> Python ast + a table of C types.

Extra calls stand for C constructs: __addr__(x) is &x, __sizeof__(x) is sizeof(x), __cast__(T, x) a cast.
"""
import ast
import os

from .loader import AnalysisBroken

OPS = {'+': ast.Add, '-': ast.Sub, '*': ast.Mult, '/': ast.Div, '//': ast.FloorDiv, '%': ast.Mod,
       '**': ast.Pow, '&': ast.BitAnd, '|': ast.BitOr, '^': ast.BitXor, '<<': ast.LShift, '>>': ast.RShift}
CMPS = {'==': ast.Eq, '!=': ast.NotEq, '<': ast.Lt, '<=': ast.LtE, '>': ast.Gt, '>=': ast.GtE,
        'in': ast.In, 'not_in': ast.NotIn, 'is': ast.Is, 'is_not': ast.IsNot, '<>': ast.NotEq}


def load_into(module):
    try:
        from Cython.Compiler.TreeFragment import parse_from_strings
        from Cython.Compiler import Errors
    except Exception as e:  # pragma: no cover
        raise AnalysisBroken(f'Cython front end not available: {e}')
    try:
        tree = parse_from_strings(module.name, module.src)
    except Exception as e:
        raise AnalysisBroken(f'{module.rel} does not parse: {e}')
    module.directives = dict(getattr(tree, 'directive_comments', None) or {})
    module.cdirectives = []
    c = Conv(module)
    body = c.stmts(tree.body)
    m = ast.Module(body=body, type_ignores=[])
    ast.fix_missing_locations(m)
    module.tree = m


class Conv:
    def __init__(self, module):
        self.m = module
        self.fn = None

    def bad(self, n):
        raise AnalysisBroken(f'{self.m.rel}:{n.pos[1] if getattr(n, "pos", None) else "?"}: construct '
                             f'{type(n).__name__} not understood by the .pyx front end')

    def at(self, node, n):
        node.lineno = n.pos[1]
        node.col_offset = n.pos[2]
        node.end_lineno = n.pos[1]
        node.end_col_offset = n.pos[2]
        return node

    # ---- statements
    def stmts(self, n):
        if n is None:
            return []
        if type(n).__name__ == 'StatListNode':
            out = []
            for s in n.stats:
                out.extend(self.stmts(s))
            return out
        return self.stmt(n)

    def body(self, n):
        b = self.stmts(n)
        return b or [self.at(ast.Pass(), n)] if n is not None else [ast.Pass()]

    def declname(self, d):
        t = type(d).__name__
        if t == 'CNameDeclaratorNode':
            return d.name, '', d.default
        if t == 'CPtrDeclaratorNode':
            nm, suf, df = self.declname(d.base)
            return nm, '*' + suf, df
        if t == 'CArrayDeclaratorNode':
            nm, suf, df = self.declname(d.base)
            dim = ast.unparse(ast.fix_missing_locations(self.expr(d.dimension))) if d.dimension is not None else ''
            return nm, f'[{dim}]' + suf, df
        self.bad(d)

    def basetype(self, b):
        t = type(b).__name__
        if t == 'CSimpleBaseTypeNode':
            s = b.name or ''
            lo = getattr(b, 'longness', 0)
            if lo:
                s = 'long ' * abs(lo) + s
            if getattr(b, 'signed', 1) == 0:
                s = 'unsigned ' + s
            return s
        if t == 'MemoryViewSliceTypeNode':
            return self.basetype(b.base_type_node) + '[:]'
        if t == 'CConstTypeNode' or t == 'CConstOrVolatileTypeNode':
            return self.basetype(b.base_type)
        return t

    def stmt(self, n):
        t = type(n).__name__
        if t == 'StatListNode':
            return self.stmts(n)
        if t in ('FromCImportStatNode', 'CImportStatNode'):
            # name the C functions by their header: libc.stdio.fopen
            out = []
            if t == 'FromCImportStatNode':
                for item in n.imported_names:
                    name, asname = item[1], item[2]
                    out.append(self.at(ast.ImportFrom(module=n.module_name, names=[ast.alias(name, asname)], level=0), n))
            else:
                out.append(self.at(ast.Import(names=[ast.alias(n.module_name, n.as_name)]), n))
            return out
        if t == 'CVarDefNode':
            bt = self.basetype(n.base_type)
            out = []
            for d in n.declarators:
                nm, suf, df = self.declname(d)
                self.m.ctypes[(self.fn, nm)] = bt + suf
                if df is not None:
                    out.append(self.at(ast.Assign(targets=[ast.Name(nm, ast.Store())], value=self.expr(df)), n))
            return out
        if t == 'SingleAssignmentNode':
            rt = type(n.rhs).__name__
            if rt == 'ImportNode':
                mod = n.rhs.module_name.value
                as_ = n.lhs.name
                if as_ == mod.split('.')[0] and not n.rhs.is_import_as_name:
                    return [self.at(ast.Import(names=[ast.alias(mod, None)]), n)]
                return [self.at(ast.Import(names=[ast.alias(mod, as_ if as_ != mod else None)]), n)]
            return [self.at(ast.Assign(targets=[self.expr(n.lhs, True)], value=self.expr(n.rhs)), n)]
        if t == 'CascadedAssignmentNode':
            return [self.at(ast.Assign(targets=[self.expr(x, True) for x in n.lhs_list], value=self.expr(n.rhs)), n)]
        if t == 'FromImportStatNode':
            mod = n.module.module_name.value
            return [self.at(ast.ImportFrom(module=mod, names=[ast.alias(nm, tgt.name if tgt.name != nm else None)
                                                             for nm, tgt in n.items], level=0), n)]
        if t == 'InPlaceAssignmentNode':
            return [self.at(ast.AugAssign(target=self.expr(n.lhs, True), op=OPS[n.operator](), value=self.expr(n.rhs)), n)]
        if t in ('DefNode', 'CFuncDefNode'):
            old = self.fn
            if t == 'DefNode':
                name, args = n.name, n.args
            else:
                d = n.declarator
                while type(d).__name__ == 'CPtrDeclaratorNode':
                    d = d.base
                name, args = d.base.name, d.args
            self.fn = name
            al, df = [], []
            for a in args:
                nm, suf, dd = self.declname(a.declarator)
                if not nm:      # untyped argument: the name sits in the base type
                    nm = a.base_type.name
                self.m.ctypes[(name, nm)] = self.basetype(a.base_type) + suf
                al.append(ast.arg(nm))
                d = a.default if a.default is not None else dd
                if d is not None:
                    df.append(self.expr(d))
            for dec in (getattr(n, 'decorators', None) or []):
                self.m.cdirectives.append((name, ast.unparse(ast.fix_missing_locations(ast.Expression(self.expr(dec.decorator))))))
            b = self.body(n.body)
            if getattr(n, 'doc', None):
                b = [self.at(ast.Expr(ast.Constant(str(n.doc))), n)] + b
            self.fn = old
            f = ast.FunctionDef(name=name, args=ast.arguments(posonlyargs=[], args=al, vararg=None, kwonlyargs=[],
                                                              kw_defaults=[], kwarg=None, defaults=df),
                                body=b, decorator_list=[], returns=None, type_params=[])
            return [self.at(f, n)]
        if t == 'IfStatNode':
            els = self.body(n.else_clause) if n.else_clause is not None else []
            for c in reversed(n.if_clauses):
                els = [self.at(ast.If(test=self.expr(c.condition), body=self.body(c.body), orelse=els), c)]
            return els
        if t == 'WhileStatNode':
            return [self.at(ast.While(test=self.expr(n.condition), body=self.body(n.body),
                                      orelse=self.body(n.else_clause) if n.else_clause is not None else []), n)]
        if t in ('ForInStatNode',):
            return [self.at(ast.For(target=self.expr(n.target, True), iter=self.expr(n.iterator.sequence),
                                    body=self.body(n.body),
                                    orelse=self.body(n.else_clause) if n.else_clause is not None else []), n)]
        if t == 'ForFromStatNode':
            lo, hi = self.expr(n.bound1), self.expr(n.bound2)
            if n.relation2 == '<=':
                hi = ast.BinOp(hi, ast.Add(), ast.Constant(1))
            if n.relation1 == '<':
                lo = ast.BinOp(lo, ast.Add(), ast.Constant(1))
            return [self.at(ast.For(target=self.expr(n.target, True), iter=ast.Call(ast.Name('range', ast.Load()), [lo, hi], []),
                                    body=self.body(n.body), orelse=[]), n)]
        if t == 'BreakStatNode':
            return [self.at(ast.Break(), n)]
        if t == 'ContinueStatNode':
            return [self.at(ast.Continue(), n)]
        if t == 'PassStatNode':
            return [self.at(ast.Pass(), n)]
        if t == 'ExprStatNode':
            return [self.at(ast.Expr(self.expr(n.expr)), n)]
        if t == 'ReturnStatNode':
            return [self.at(ast.Return(self.expr(n.value) if n.value is not None else None), n)]
        if t == 'RaiseStatNode':
            exc = self.expr(n.exc_type) if n.exc_type is not None else None
            if exc is not None and getattr(n, 'exc_value', None) is not None:
                exc = ast.Call(exc, [self.expr(n.exc_value)], [])
            return [self.at(ast.Raise(exc, None), n)]
        if t == 'AssertStatNode':
            return [self.at(ast.Assert(self.expr(n.condition), None), n)]
        if t == 'DelStatNode':
            return [self.at(ast.Delete([self.expr(x, True) for x in n.args]), n)]
        if t == 'GlobalNode':
            return [self.at(ast.Global(list(n.names)), n)]
        if t == 'TryExceptStatNode':
            hs = []
            for c in n.except_clauses:
                ty = None
                if c.pattern:
                    ps = [self.expr(p) for p in c.pattern]
                    ty = ps[0] if len(ps) == 1 else ast.Tuple(ps, ast.Load())
                nm = c.target.name if c.target is not None else None
                hs.append(self.at(ast.ExceptHandler(ty, nm, self.body(c.body)), c))
            return [self.at(ast.Try(self.body(n.body), hs, self.body(n.else_clause) if n.else_clause is not None else [], []), n)]
        if t == 'TryFinallyStatNode':
            b = self.body(n.body)
            fin = self.body(n.finally_clause)
            if len(b) == 1 and isinstance(b[0], ast.Try) and not b[0].finalbody:
                b[0].finalbody = fin
                return b
            return [self.at(ast.Try(b, [], [], fin), n)]
        if t == 'WithStatNode':
            mgr = self.expr(n.manager)
            tgt = self.expr(n.target, True) if n.target is not None else None
            b = n.body
            return [self.at(ast.With([ast.withitem(mgr, tgt)], self.body(b)), n)]
        if t == 'GILStatNode':
            return self.body(n.body)
        if t in ('CompilerDirectivesNode',):
            return self.stmts(n.body)
        if t in ('CDefExternNode', 'CTypeDefNode', 'CEnumDefNode', 'CStructOrUnionDefNode'):
            return []
        self.bad(n)

    # ---- expressions
    def expr(self, n, store=False):
        e = self._expr(n, store)
        if getattr(n, 'pos', None):
            self.at(e, n)
        return e

    def _expr(self, n, store=False):
        t = type(n).__name__
        ctx = ast.Store() if store else ast.Load()
        if t == 'NameNode':
            return ast.Name(str(n.name), ctx)
        if t == 'AttributeNode':
            return ast.Attribute(self.expr(n.obj), str(n.attribute), ctx)
        if t == 'IntNode':
            return ast.Constant(int(str(n.value), 0))
        if t == 'FloatNode':
            return ast.Constant(float(str(n.value)))
        if t == 'BoolNode':
            return ast.Constant(bool(n.value))
        if t in ('UnicodeNode', 'StringNode', 'IdentifierStringNode'):
            return ast.Constant(str(n.value))
        if t == 'BytesNode':
            v = n.value
            return ast.Constant(bytes(v) if not isinstance(v, str) else v.encode('latin1'))
        if t == 'CharNode':
            v = n.value
            v = v if isinstance(v, (bytes, bytearray)) else str(v).encode('latin1')
            return ast.Constant(v[0])
        if t in ('NoneNode', 'NullNode'):
            return ast.Constant(None)
        if t in ('SimpleCallNode',):
            return ast.Call(self.expr(n.function), [self.expr(a) for a in n.args], [])
        if t == 'GeneralCallNode':
            pos = n.positional_args
            args = [self.expr(a) for a in pos.args] if hasattr(pos, 'args') else self.bad(n)
            kws = []
            if n.keyword_args is not None:
                for kv in n.keyword_args.key_value_pairs:
                    kws.append(ast.keyword(str(kv.key.value), self.expr(kv.value)))
            return ast.Call(self.expr(n.function), args, kws)
        if t == 'IndexNode':
            return ast.Subscript(self.expr(n.base), self.expr(n.index), ctx)
        if t == 'SliceIndexNode':
            return ast.Subscript(self.expr(n.base), ast.Slice(self.expr(n.start) if n.start is not None else None,
                                                              self.expr(n.stop) if n.stop is not None else None), ctx)
        if t == 'SliceNode':
            def o(x):
                return None if x is None or type(x).__name__ == 'NoneNode' else self.expr(x)
            return ast.Slice(o(n.start), o(n.stop), o(n.step))
        if t == 'TupleNode':
            return ast.Tuple([self.expr(a, store) for a in n.args], ctx)
        if t == 'ListNode':
            return ast.List([self.expr(a, store) for a in n.args], ctx)
        if t == 'DictNode':
            return ast.Dict([self.expr(kv.key) for kv in n.key_value_pairs], [self.expr(kv.value) for kv in n.key_value_pairs])
        if t == 'AmpersandNode':
            return ast.Call(ast.Name('__addr__', ast.Load()), [self.expr(n.operand)], [])
        if t == 'SizeofVarNode':
            return ast.Call(ast.Name('__sizeof__', ast.Load()), [self.expr(n.operand)], [])
        if t == 'SizeofTypeNode':
            return ast.Call(ast.Name('__sizeof__', ast.Load()), [ast.Constant(self.basetype(n.base_type))], [])
        if t == 'TypecastNode':
            return ast.Call(ast.Name('__cast__', ast.Load()), [ast.Constant(self.basetype(n.base_type)), self.expr(n.operand)], [])
        if t in ('UnaryMinusNode',):
            return ast.UnaryOp(ast.USub(), self.expr(n.operand))
        if t == 'UnaryPlusNode':
            return ast.UnaryOp(ast.UAdd(), self.expr(n.operand))
        if t == 'TildeNode':
            return ast.UnaryOp(ast.Invert(), self.expr(n.operand))
        if t == 'NotNode':
            return ast.UnaryOp(ast.Not(), self.expr(n.operand))
        if t == 'BoolBinopNode':
            return ast.BoolOp(ast.And() if n.operator == 'and' else ast.Or(), [self.expr(n.operand1), self.expr(n.operand2)])
        if t == 'PrimaryCmpNode':
            ops, cs = [CMPS[n.operator]()], [self.expr(n.operand2)]
            c = n.cascade
            while c is not None:
                ops.append(CMPS[c.operator]())
                cs.append(self.expr(c.operand2))
                c = c.cascade
            return ast.Compare(self.expr(n.operand1), ops, cs)
        if t == 'CondExprNode':
            return ast.IfExp(self.expr(n.test if hasattr(n, 'test') else n.condition), self.expr(n.true_val), self.expr(n.false_val))
        if t == 'JoinedStrNode':
            return ast.JoinedStr([self.expr(v) for v in n.values])
        if t == 'FormattedValueNode':
            return ast.FormattedValue(self.expr(n.value), -1, self.expr(n.format_spec) if n.format_spec is not None else None)
        if t == 'StarredUnpackingNode':
            return ast.Starred(self.expr(n.target), ctx)
        if t == 'ImportNode':
            return ast.Constant(None)
        if hasattr(n, 'operator') and hasattr(n, 'operand1') and n.operator in OPS:
            return ast.BinOp(self.expr(n.operand1), OPS[n.operator](), self.expr(n.operand2))
        if t in ('CoerceToPyTypeNode', 'CoerceFromPyTypeNode', 'ProxyNode', 'CloneNode'):
            return self.expr(n.arg)
        self.bad(n)
