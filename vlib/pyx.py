"""Cython modules of the code under test as Python sources.

The .pyx files are parsed with Cython's own parser and written out as Python in which the
C declarations become the conversions that Cython generates (typed arguments, typed locals,
casts, memoryviews).  The result runs on symbolic numbers like every other module."""
import os
import warnings

import numpy as np

from .loader import HarnessGap


class Untranslatable(HarnessGap):
    pass


def _cython():
    from Cython.Compiler import ExprNodes, Nodes
    from Cython.Compiler.TreeFragment import parse_from_strings
    return parse_from_strings, Nodes, ExprNodes


class Writer:
    def __init__(self):
        self.lines = []
        self.ind = 0
        self.scopes = []        # declared C types of the locals of the current function
        self.wrap = True        # the wraparound directive
        self.tmp = 0

    def w(self, s):
        self.lines.append('    ' * self.ind + s)

    def block(self, node):
        self.ind += 1
        n = len(self.lines)
        self.stmt(node)
        if len(self.lines) == n:
            self.w('pass')
        self.ind -= 1

    # ---- types
    def ctype(self, base, decl=None):
        """A C type as text: 'double', 'int', 'bint', 'mv' (contiguous), 'mvs', 'object', ..."""
        n = type(base).__name__
        ptr = type(decl).__name__ == 'CPtrDeclaratorNode' if decl is not None else False
        if ptr:
            return 'object'
        if n == 'MemoryViewSliceTypeNode':
            ax = base.axes[-1]
            step = ax.step
            it = self.ctype(base.base_type_node)
            c = type(step).__name__ == 'IntNode' and step.value == '1'
            return f'mv{"c" if c else "s"}:{len(base.axes)}:{it}'
        if n == 'TemplatedTypeNode':
            return 'object'
        if n == 'CSimpleBaseTypeNode':
            t = base.name
            if t is None:
                return 'object'
            if t in ('double', 'float64_t', 'float', 'float32_t'):
                return 'double' if t in ('double', 'float64_t') else 'single'
            if t in ('int', 'long', 'Py_ssize_t', 'int32_t', 'int64_t', 'size_t', 'short', 'intp_t', 'uint32_t', 'uint64_t', 'unsigned int'):
                return 'int'
            if t in ('bint', 'cpp_bool', 'bool'):
                return 'bint'
            if t == 'str':
                return 'str'
            return 'object'
        return 'object'

    def conv(self, t, e, what=''):
        if t == 'object' or t == 'str':
            return e
        if t.startswith('mv'):
            k, nd, it = t.split(':')
            return f'_pyx_view({e}, {k == "mvc"!r}, {nd}, {it!r})'
        return f'_pyx_{t}({e})'

    # ---- expressions
    def e(self, n):
        f = getattr(self, 'e_' + type(n).__name__, None)
        if f is None:
            raise Untranslatable(f'Cython expression {type(n).__name__}')
        return f(n)

    def e_NameNode(self, n): return str(n.name)
    def e_IntNode(self, n): return str(n.value).rstrip('LlUu')
    def e_FloatNode(self, n): return str(n.value)
    def e_UnicodeNode(self, n): return repr(str(n.value))
    def e_StringNode(self, n): return repr(str(n.unicode_value if n.unicode_value is not None else n.value))
    def e_BytesNode(self, n): return repr(bytes(n.value))
    def e_IdentifierStringNode(self, n): return repr(str(n.value))
    def e_BoolNode(self, n): return repr(bool(n.value))
    def e_NoneNode(self, n): return 'None'
    def e_EllipsisNode(self, n): return '...'
    def e_AttributeNode(self, n): return f'{self.e(n.obj)}.{n.attribute}'
    def e_IndexNode(self, n):
        b = self.e(n.base)
        if self.scopes and self.scopes[-1].get(b, '').startswith('mv') and type(n.index).__name__ not in ('SliceNode', 'TupleNode'):
            return f'{b}[_pyx_ix({b}, {self.e(n.index)}, {self.wrap})]'
        return f'{b}[{self.e(n.index)}]'

    def e_SliceIndexNode(self, n):
        return f'{self.e(n.base)}[{self.e(n.start) if n.start else ""}:{self.e(n.stop) if n.stop else ""}]'

    def e_SliceNode(self, n):
        f = lambda x: '' if type(x).__name__ == 'NoneNode' else self.e(x)
        return f'slice({f(n.start) or None}, {f(n.stop) or None}, {f(n.step) or None})'

    def e_TupleNode(self, n): return '(' + ''.join(self.e(a) + ', ' for a in n.args) + ')'
    def e_ListNode(self, n): return '[' + ', '.join(self.e(a) for a in n.args) + ']'
    def e_UnaryMinusNode(self, n): return f'(-{self.e(n.operand)})'
    def e_UnaryPlusNode(self, n): return f'(+{self.e(n.operand)})'
    def e_NotNode(self, n): return f'(not {self.e(n.operand)})'
    def e_CondExprNode(self, n): return f'({self.e(n.true_val)} if {self.e(n.test)} else {self.e(n.false_val)})'
    def e_BoolBinopNode(self, n): return f'({self.e(n.operand1)} {n.operator} {self.e(n.operand2)})'

    def e_BinopNode(self, n): return f'({self.e(n.operand1)} {n.operator} {self.e(n.operand2)})'
    e_AddNode = e_SubNode = e_MulNode = e_DivNode = e_ModNode = e_PowNode = e_IntBinopNode = e_NumBinopNode = e_BinopNode
    e_MatMultNode = e_BinopNode

    def e_PrimaryCmpNode(self, n):
        s = f'{self.e(n.operand1)} {n.operator.replace("_", " ")} {self.e(n.operand2)}'
        c = n.cascade
        while c is not None:
            s += f' {c.operator.replace("_", " ")} {self.e(c.operand2)}'
            c = c.cascade
        return f'({s})'

    def e_AmpersandNode(self, n):
        o = n.operand
        if type(o).__name__ != 'IndexNode':
            raise Untranslatable('address of something else than an element')
        return f'_pyx_ptr({self.e(o.base)}, {self.e(o.index)})'

    def e_TypecastNode(self, n):
        return self.conv(self.ctype(n.base_type, n.declarator), self.e(n.operand)).replace('_pyx_int(', '_pyx_castint(', 1) \
            if self.ctype(n.base_type, n.declarator) == 'int' else self.conv(self.ctype(n.base_type, n.declarator), self.e(n.operand))

    def e_NewExprNode(self, n):
        t = n.cppclass
        return str(t.name)

    def e_SimpleCallNode(self, n):
        return f'{self.e(n.function)}({", ".join(self.e(a) for a in n.args)})'

    def e_GeneralCallNode(self, n):
        a = [self.e(x) for x in n.positional_args.args] if hasattr(n.positional_args, 'args') else ['*' + self.e(n.positional_args)]
        k = n.keyword_args
        if k is not None:
            if not hasattr(k, 'key_value_pairs'):
                raise Untranslatable('** call')
            a += [f'{str(p.key.value)}={self.e(p.value)}' for p in k.key_value_pairs]
        return f'{self.e(n.function)}({", ".join(a)})'

    def e_DictNode(self, n):
        return '{' + ', '.join(f'{self.e(p.key)}: {self.e(p.value)}' for p in n.key_value_pairs) + '}'

    # ---- statements
    def stmt(self, n):
        if n is None:
            return
        f = getattr(self, 's_' + type(n).__name__, None)
        if f is None:
            raise Untranslatable(f'Cython statement {type(n).__name__}')
        f(n)

    def s_StatListNode(self, n):
        for s in n.stats:
            self.stmt(s)

    def s_ModuleNode(self, n): self.stmt(n.body)
    def s_CompilerDirectivesNode(self, n): self.stmt(n.body)
    def s_CImportStatNode(self, n): pass
    def s_PassStatNode(self, n): self.w('pass')
    def s_BreakStatNode(self, n): self.w('break')
    def s_ContinueStatNode(self, n): self.w('continue')

    def s_FromCImportStatNode(self, n):
        for item in n.imported_names:
            nm, al = str(item[1]), str(item[2] or item[1])
            self.w(f'{al} = _pyx_cimport({str(n.module_name)!r}, {nm!r})')

    def s_ExprStatNode(self, n):
        self.w(self.e(n.expr))

    def s_DelStatNode(self, n):
        pass

    def s_ReturnStatNode(self, n):
        v = self.e(n.value) if n.value is not None else 'None'
        self.w('return ' + (self.conv(self.ret, v) if self.ret != 'object' else v))

    def s_SingleAssignmentNode(self, n):
        if type(n.rhs).__name__ in ('ImportNode',):
            nm = str(n.rhs.module_name.value)
            self.w(f'import {nm} as {self.e(n.lhs)}' if '.' not in nm or str(n.lhs.name) != nm.split('.')[0] else f'import {nm}')
            return
        self.assign(n.lhs, self.e(n.rhs))

    def assign(self, lhs, rhs):
        if type(lhs).__name__ == 'TupleNode':
            self.tmp += 1
            self.w(f'_t{self.tmp} = {rhs}')
            k = self.tmp
            for i, a in enumerate(lhs.args):
                self.assign(a, f'_t{k}[{i}]')
            return
        t = self.scopes[-1].get(str(lhs.name), 'object') if self.scopes and type(lhs).__name__ == 'NameNode' else 'object'
        self.w(f'{self.e(lhs)} = {self.conv(t, rhs)}')

    def s_CascadedAssignmentNode(self, n):
        self.tmp += 1
        k = self.tmp
        self.w(f'_t{k} = {self.e(n.rhs)}')
        for l in n.lhs_list:
            self.assign(l, f'_t{k}')

    def s_InPlaceAssignmentNode(self, n):
        l = self.e(n.lhs)
        op = n.operator
        self.assign(n.lhs, f'{l} {op} ({self.e(n.rhs)})')

    def s_FromImportStatNode(self, n):
        names = ', '.join(f'{str(a)} as {str(b.name)}' for a, b in n.items)
        self.w(f'from {str(n.module.module_name.value)} import {names}')

    def s_CVarDefNode(self, n):
        for d in n.declarators:
            base, dd = n.base_type, d
            while hasattr(dd, 'base') and not hasattr(dd, 'name'):
                dd = dd.base
            t = self.ctype(base, d)
            nm = str(dd.name)
            if self.scopes:
                self.scopes[-1][nm] = t
            if getattr(dd, 'default', None) is not None:
                self.w(f'{nm} = {self.conv(t, self.e(dd.default))}')

    def s_IfStatNode(self, n):
        for i, c in enumerate(n.if_clauses):
            self.w(f'{"if" if i == 0 else "elif"} {self.e(c.condition)}:')
            self.block(c.body)
        if n.else_clause is not None:
            self.w('else:')
            self.block(n.else_clause)

    def s_ForInStatNode(self, n):
        it = n.iterator.sequence if hasattr(n.iterator, 'sequence') else n.iterator
        self.w(f'for {self.e(n.target)} in {self.e(it)}:')
        self.block(n.body)

    def s_WhileStatNode(self, n):
        self.w(f'while {self.e(n.condition)}:')
        self.block(n.body)

    def s_GILStatNode(self, n): self.stmt(n.body)

    def s_WithStatNode(self, n): raise Untranslatable('with')

    def s_RaiseStatNode(self, n):
        self.w('raise ' + (self.e(n.exc_type) if n.exc_type is not None else ''))

    def func(self, name, args, body, ret, doc=None):
        ps, conv, sc = [], [], {}
        for a in args:
            d = a.declarator
            dd = d
            while hasattr(dd, 'base') and not hasattr(dd, 'name'):
                dd = dd.base
            nm = str(dd.name)
            base = a.base_type
            if nm == '':            # "def f(x)": the name is parsed as the type
                nm, t = str(base.name), 'object'
            else:
                t = self.ctype(base, d)
            ps.append(nm + (f'={self.e(a.default)}' if a.default is not None else ''))
            if t != 'object':
                sc[nm] = t
                conv.append(f'{nm} = {self.conv(t, nm)}')
        self.w(f'def {name}({", ".join(ps)}):')
        self.ind += 1
        for c in conv:
            self.w(c)
        self.w('pass')
        self.scopes.append(sc)
        old, self.ret = getattr(self, 'ret', 'object'), ret
        self.stmt(body)
        self.ret = old
        self.scopes.pop()
        self.ind -= 1

    def s_CFuncDefNode(self, n):
        self.wrap = not any(self.e(d.decorator.function).endswith('wraparound') and self.e(d.decorator.args[0]) == 'False'
                            for d in (n.decorators or []) if type(d.decorator).__name__ == 'SimpleCallNode')
        d = n.declarator
        while type(d).__name__ != 'CFuncDeclaratorNode':
            d = d.base
        self.func(str(d.base.name), d.args, n.body, self.ctype(n.base_type) if type(n.base_type).__name__ == 'CSimpleBaseTypeNode' else 'object')

    def s_DefNode(self, n):
        self.wrap = not any(self.e(d.decorator.function).endswith('wraparound') and self.e(d.decorator.args[0]) == 'False'
                            for d in (n.decorators or []) if type(d.decorator).__name__ == 'SimpleCallNode')
        self.func(str(n.name), n.args, n.body, 'object')


def translate(path):
    parse, _, _ = _cython()
    with open(path) as fh:
        src = fh.read()
    from Cython.Compiler import Errors
    Errors.init_thread()
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        tree = parse('m', src)
    w = Writer()
    try:
        w.stmt(tree)
    except Untranslatable:
        raise
    except Exception as e:      # noqa
        raise Untranslatable(f'{os.path.basename(path)}: {type(e).__name__}: {e}')
    return '\n'.join(w.lines) + '\n'


# ------------------------------------------------------------------ the conversions
def runtime(mode, world):
    from . import cxx, sym
    from .loader import sx_int, sx_float
    from .sym import SV, SymBool
    cls = cxx.classes(mode)

    def is_float(x):
        if isinstance(x, SV):
            return not x.is_int
        return isinstance(x, (float, np.floating))

    def view(x, contiguous, nd, item):
        if not isinstance(x, np.ndarray):
            raise TypeError(f'a bytes-like object is required, not {type(x).__name__!r}')
        if x.ndim != nd:
            raise ValueError(f'Buffer has wrong number of dimensions (expected {nd}, got {x.ndim})')
        if contiguous and not np.asarray(x).flags.c_contiguous:
            raise ValueError('ndarray is not C-contiguous')
        if mode != 'sym':
            want = {'double': np.float64, 'single': np.float32}.get(item)
            if want is not None and x.dtype != want:
                raise ValueError(f'Buffer dtype mismatch, expected {item!r} but got {x.dtype}')
        else:
            want_int = item == 'int'
            k = sym.item_kind(x) if hasattr(sym, 'item_kind') else None
            if k is not None and ((k == 'int') != want_int):
                raise ValueError('Buffer dtype mismatch')
        return x

    def dbl(x):
        return sx_float(x) if mode == 'sym' else float(x)

    def integer(x):
        return sx_int(x) if mode == 'sym' else int(x)

    def bint(x):
        return bool(x)

    def index(v, i, wrap):
        n = v.shape[0]
        if bool(i < (-n if wrap else 0)) or bool(i >= n):
            raise IndexError('access outside the array')
        return i

    def cimport(mod, name):
        if name in cls:
            return cls[name]
        if mod == 'libc.math':
            return getattr(world.stubs['math'] if mode == 'sym' else _cmath, name)
        if name == 'prange':
            return lambda *a, **k: range(*[int(x) for x in a])
        if mod.startswith(('libcpp', 'libc', 'cython', 'numpy')):
            return None
        raise Untranslatable(f'cimport {mod}.{name}')

    return {'_pyx_view': view, '_pyx_double': dbl, '_pyx_single': dbl, '_pyx_int': integer, '_pyx_castint': integer,
            '_pyx_bint': bint, '_pyx_ix': index, '_pyx_ptr': lambda v, i: cxx.Ptr(v, i), '_pyx_cimport': cimport}


class _cmath:
    """libc.math: no exceptions."""
    @staticmethod
    def log(x):
        with np.errstate(all='ignore'):
            return float(np.log(x))

    @staticmethod
    def floor(x):
        return float(np.floor(x))

    @staticmethod
    def sqrt(x):
        with np.errstate(all='ignore'):
            return float(np.sqrt(x))

    @staticmethod
    def exp(x):
        return float(np.exp(x))

    fabs = staticmethod(abs)

    @staticmethod
    def pow(x, y):
        return float(np.power(float(x), float(y)))
