"""Speeds up the z3 Python bindings under PyPy: the same libz3 entry points are called through cffi instead of ctypes.

Only functions whose arguments are handles, numbers and handle arrays are redirected; error codes are still checked
after every call."""
import ctypes


def install(z3):
    try:
        import cffi
    except ImportError:
        return 0
    from z3 import z3core, z3types
    V = ctypes.c_void_p
    path = None
    for line in open("/proc/self/maps"):
        if "libz3" in line:
            path = line.split()[-1]
            break
    if path is None:
        return 0
    names = {}
    for k, v in list(z3core.__dict__.items()):
        if k.startswith("Z3_") and callable(v) and getattr(v, "__defaults__", None):
            el = v.__defaults__[-1]
            if isinstance(el, z3core.Elementaries):
                names[k] = el
    handle_types = set()

    def ctype(t):
        if t is None:
            return "void"
        if isinstance(t, type) and issubclass(t, V):
            handle_types.add(t)
            return "size_t"
        return {ctypes.c_uint: "unsigned int", ctypes.c_int: "int", ctypes.c_bool: "_Bool", ctypes.c_double: "double",
                ctypes.c_ulonglong: "unsigned long long", ctypes.c_longlong: "long long",
                ctypes.c_ulong: "unsigned long", ctypes.c_long: "long"}.get(t)

    def is_handle_array(t):
        return isinstance(t, type) and hasattr(t, "_type_") and isinstance(t._type_, type) and issubclass(t._type_, V) \
            and t is not V and not issubclass(t, V)

    decls, plans = [], []
    for n, el in names.items():
        f = el.f
        at = getattr(f, "argtypes", None)
        if at is None or n in ("Z3_set_error_handler",):
            continue
        r = ctype(f.restype)
        if r is None:
            continue
        kinds, ok = [], True
        for t in at:
            c = ctype(t)
            if c is not None:
                kinds.append(("h" if (isinstance(t, type) and issubclass(t, V)) else "n", c))
            elif is_handle_array(t):
                kinds.append(("a", "size_t"))
            else:
                ok = False
                break
        if not ok:
            continue
        decls.append("%s %s(%s);" % (r, n, ", ".join(c for _, c in kinds) or "void"))
        plans.append((n, el, f, kinds, f.restype))
    ffi = cffi.FFI()
    ffi.cdef("unsigned int Z3_get_error_code(size_t);\n" + "\n".join(d for d in decls if "Z3_get_error_code(" not in d))
    lib = ffi.dlopen(path)
    for t in handle_types:
        if "__init__" in t.__dict__ and t is not V:
            t.__init__ = lambda self, v=None, _i=V.__init__: _i(self, v)
    gec = lib.Z3_get_error_code
    gem = z3core.Elementaries.Check

    def check(ctx):
        e = gec(ctx.value or 0)
        if e:
            gem(any_el, ctx)

    any_el = z3core.Z3_get_ast_id.__defaults__[-1]
    n_ok = 0
    for n, el, f, kinds, rt in plans:
        env = {"g": getattr(lib, n), "R": rt, "addr": ctypes.addressof, "A": ctypes.Array, "slow": f}
        args = ["a%d" % i for i in range(len(kinds))]
        conv, pre = [], []
        for a, (k, c) in zip(args, kinds):
            if k == "h":
                conv.append("(%s.value or 0)" % a)
                pre.append("%s is None" % a)
            elif k == "a":
                conv.append("addr(%s)" % a)
                pre.append("not isinstance(%s, A)" % a)
            else:
                conv.append(a)
        call = "g(%s)" % ", ".join(conv)
        if rt is None:
            body = "    %s\n" % call
        elif isinstance(rt, type) and issubclass(rt, V):
            body = "    return R(%s)\n" % call
        else:
            body = "    return %s\n" % call
        src = "def fast(%s):\n" % ", ".join(args)
        if pre:
            src += "    if %s:\n        return slow(%s)\n" % (" or ".join(pre), ", ".join(args))
        src += body
        exec(src, env)
        el.f = env["fast"]
        el.Check = check
        n_ok += 1
    return n_ok


def cache_refs(z3m):
    """share the wrapper objects of sorts and declarations"""
    from z3 import z3 as Z, z3core
    sorts, decls = {}, {}
    gs, gd = z3core.Z3_get_sort, z3core.Z3_get_app_decl

    def sort(self):
        s = gs(self.ctx.ref(), self.ast)
        r = sorts.get(s.value)
        if r is None:
            r = sorts[s.value] = Z._to_sort_ref(s, self.ctx)
        return r

    for cls in (Z.ExprRef, Z.ArithRef, Z.BoolRef):
        cls.sort = sort

    def decl(self):
        d = gd(self.ctx.ref(), self.ast)
        r = decls.get(d.value)
        if r is None:
            r = decls[d.value] = Z.FuncDeclRef(d, self.ctx)
        return r

    Z.ExprRef.decl = decl
    ok = Z.FuncDeclRef.kind

    def kind_cached(self):
        k = getattr(self, "_k", None)
        if k is None:
            k = self._k = ok(self)
        return k

    Z.FuncDeclRef.kind = kind_cached

    oa = Z.SortRef.as_ast

    def as_ast(self):
        a = self.__dict__.get("_a")
        if a is None:
            a = self._a = oa(self)
        return a

    Z.SortRef.as_ast = as_ast
