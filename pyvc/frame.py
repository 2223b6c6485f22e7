"""Frame conditions ("modifies" clauses): which filesystems a function can change, decided call site by call site on the real source.

Every function of the package gets a contract of the form `modifies R`, R a set of roots (its parameters, attributes of self, or "absolute":
the local filesystem by path).  It is checked against its body: each call, and each reference to a method of a filesystem, modifies at most R,
where a call of another function of the package is replaced by that function's contract (with the constants passed to it: a contract is per
value of constant arguments, e.g. create=False) and a call of a library function by the table below."""
import ast

# methods of a filesystem that change it, and nothing else has a method of this name here
FS_WRITE = {"makedir", "makedirs", "mkdir", "mkdirs", "rm", "rm_file", "rmdir", "_rm", "write_text", "write_bytes", "pipe", "pipe_file", "put", "put_file", "touch", "mv",
            "cp", "cp_file", "rmtree", "removetree", "removedir", "removedirs", "movedir", "move", "writetext", "writebytes", "upload", "setxattr", "chmod", "chown", "unlink", "rename", "start_transaction",
            "symlink_to", "hardlink_to", "invalidate_region", "lchmod", "truncate", "writelines_to", "copy_into", "setinfo", "copydir", "delete", "remove", "copy", "create", "_strip_protocol_rm"}
# ... of which these are also methods of values in memory
AMBIGUOUS = {"remove", "copy", "create", "delete", "rename", "move", "truncate", "put", "touch", "upload"}
FS_READ = {"exists", "isfile", "isdir", "info", "listdir", "ls", "open", "cat", "cat_file", "read_text", "read_bytes", "read_block", "walk", "find", "glob", "stat", "size", "du", "checksum", "modified",
           "created", "to_json", "lexists", "ukey", "head", "tail", "sizes", "invalidate_cache", "expand_path", "islink", "get_mapper_"}
# methods of values in memory and of open files
MEMORY = {"append", "add", "items", "keys", "values", "get", "pop", "popitem", "clear", "update", "setdefault", "extend", "insert", "sort", "reverse", "index", "count", "discard", "remove", "copy", "union",
          "intersection", "difference", "symmetric_difference", "issubset", "issuperset", "isdisjoint", "difference_update", "intersection_update",
          "startswith", "endswith", "split", "rsplit", "splitlines", "strip", "lstrip", "rstrip", "join", "format", "lower", "upper", "replace", "encode", "decode", "title", "casefold", "zfill", "isdigit",
          "ljust", "rjust", "center", "find", "rfind", "partition", "rpartition", "isalnum", "isalpha", "isupper", "islower", "isspace", "format_map", "expandtabs", "translate", "swapcase", "capitalize",
          "read", "readline", "readlines", "close", "seek", "tell", "write", "writelines", "flush", "__enter__", "__exit__",
          "hexdigest", "digest", "group", "groups", "groupdict", "match", "search", "fullmatch", "sub", "findall", "span", "start", "end",
          "isoformat", "strftime", "timestamp", "utcoffset", "astimezone", "timetuple", "utctimetuple", "replace", "hex", "bit_length", "total_seconds",
          "__init__", "__str__", "__repr__", "__eq__", "__new__", "with_traceback", "most_common", "elements", "send", "is_absolute", "to_bytes", "appendleft", "popleft", "fromkeys", "rotate"}
WRITE_FUNCS = {"os.remove", "os.unlink", "os.rename", "os.renames", "os.replace", "os.mkdir", "os.makedirs", "os.rmdir", "os.removedirs", "os.utime", "os.chmod", "os.chown", "os.link", "os.symlink", "os.truncate",
               "os.open", "os.write", "os.mkfifo", "os.mknod", "os.system", "os.popen", "os.fdopen", "os.setxattr", "os.chdir"}
WRITE_MODULES = ("shutil", "subprocess", "distutils", "pathlib")
READ_MODES = {"r", "rb", "rt", "br", "tr"}
READ_MODULES = ("os.path", "logging", "json", "re", "hashlib", "datetime", "copy", "dateutil", "calendar", "time", "urllib", "functools", "itertools", "collections", "string", "base64", "binascii", "math", "io",
                "typing", "pairtree", "sys", "uuid", "operator", "bisect", "unicodedata", "enum", "dataclasses", "contextlib", "textwrap", "pprint", "random", "posixpath", "fnmatch", "codecs", "types", "abc", "warnings", "stat", "errno")
READ_FUNCS = {"os.getcwd", "os.listdir", "os.walk", "os.stat", "os.lstat", "os.scandir", "os.getenv", "os.fspath", "os.access", "os.readlink", "os.environ.get", "fsspec.filesystem", "fsspec.spec.AbstractFileSystem",
              "fsspec.implementations.dirfs.DirFileSystem", "fsspec.implementations.local.LocalFileSystem", "fsspec.implementations.zip.ZipFileSystem", "s3fs.S3FileSystem",
              "tempfile.mkdtemp", "tempfile.TemporaryDirectory", "tempfile.gettempdir"}
FS_MAKERS = {"fsspec.filesystem", "fsspec.implementations.dirfs.DirFileSystem", "fsspec.implementations.local.LocalFileSystem", "fsspec.implementations.zip.ZipFileSystem", "s3fs.S3FileSystem"}
BUILTIN_WRITE = {"exec", "eval", "compile", "__import__", "input", "breakpoint"}
UNSET = object()


class Site:
    def __init__(self, line, text, roots, what):
        self.line, self.text, self.roots, self.what = line, text, frozenset(roots), what


class Summary:
    def __init__(self):
        self.mods, self.sites, self.unknown, self.callees = frozenset(), [], [], set()


class Frame:
    def __init__(self, repo):
        self.repo = repo
        import os
        self.modnames = sorted(f[:-3] for f in os.listdir(os.path.join(repo.root, "ocfl")) if f.endswith(".py") and f != "__init__.py")
        self.memo, self.active, self.changed = {}, set(), False
        self.methods = {}              # name -> quals of the methods and properties of this name
        self.attr_types = {}           # (class qual, attribute) -> set of class quals, or "fs"
        for mn in self.modnames:
            for c in repo.module(mn).classes.values():
                for n in list(c.methods) + list(c.props):
                    self.methods.setdefault(n, set()).add("%s.%s.%s" % (mn, c.name, n))
        self.infer_attrs()
        self._taken = None

    def taken(self):
        """Functions, methods and classes of the package that are used as a value somewhere: what an indirect call can reach."""
        if self._taken is None:
            out = set()
            for mn in self.modnames:
                m = self.repo.module(mn)
                skip = set()
                for n in ast.walk(m.tree):
                    if isinstance(n, ast.Call):
                        skip.add(id(n.func))
                        if isinstance(n.func, ast.Name) and n.func.id in ("isinstance", "issubclass"):
                            skip |= {id(x) for a in n.args[1:] for x in ast.walk(a)}
                    elif isinstance(n, ast.ClassDef):
                        skip |= {id(x) for b in n.bases for x in ast.walk(b)}
                    elif isinstance(n, ast.ExceptHandler) and n.type is not None:
                        skip |= {id(x) for x in ast.walk(n.type)}
                    elif isinstance(n, ast.Attribute):
                        skip.add(id(n.value))
                    elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                        skip |= {id(x) for b in n.decorator_list for x in ast.walk(b)}
                for n in ast.walk(m.tree):
                    if id(n) in skip or not isinstance(getattr(n, "ctx", None), ast.Load):
                        continue
                    if isinstance(n, ast.Name):
                        r = self.resolve(m, n.id)
                        if r is not None and r[0] in ("func", "class"):
                            out.add(r)
                    elif isinstance(n, ast.Attribute):
                        if n.attr in MEMORY and not (isinstance(n.value, ast.Name) and n.value.id == "self"):
                            continue    # a method of an open file or a value in memory
                        for q in self.methods.get(n.attr, ()):
                            f = self.repo.find(q)
                            if f is not None and f[1] is not None and n.attr in f[1].methods:
                                out.add(("method", q))
            self._taken = out
        return self._taken

    def indirect(self, call):
        """What an indirect call can reach, by the number of its arguments."""
        if any(isinstance(a, ast.Starred) for a in call.args) or any(k.arg is None for k in call.keywords):
            return sorted(self.taken())
        n = len(call.args) + len(call.keywords)
        out = []
        for kind, q in sorted(self.taken()):
            f = self.repo.find(q if kind != "class" else q + ".__init__")
            if kind == "class" and f is None:
                out.append((kind, q))
                continue
            a = f[2].args
            k = len(a.posonlyargs + a.args) - (1 if kind != "func" else 0)
            if a.vararg is not None or a.kwarg is not None or k - len(a.defaults) <= n <= k + len(a.kwonlyargs):
                out.append((kind, q))
        return out

    # ---- names ----
    def resolve(self, mod, name, depth=0):
        """('func', qual) / ('class', qual) / ('ext', dotted) / ('const', node) / None"""
        if name in mod.funcs:
            return ("func", "%s.%s" % (mod.name, name))
        if name in mod.classes:
            return ("class", "%s.%s" % (mod.name, name))
        if name in mod.imports:
            i = mod.imports[name]
            if i[0] == "mod":
                return ("ext", i[1])
            if i[1].startswith("."):
                base = i[1].lstrip(".")
                t = self.repo.module(base) if base else None
                if t is not None and depth < 5:
                    return self.resolve(t, i[2], depth + 1)
                if not base and self.repo.module(i[2]) is not None:
                    return ("module", i[2])
                return None
            if i[1] == "ocfl" or i[1].startswith("ocfl."):
                t = self.repo.module(i[1][5:]) if i[1] != "ocfl" else None
                return self.resolve(t, i[2], depth + 1) if t is not None and depth < 5 else None
            return ("ext", i[1] + "." + i[2])
        if name in mod.consts:
            return ("const", mod.consts[name])
        return None

    def dotted(self, mod, node, locals_):
        """Dotted name of an expression that starts at a module, or None."""
        parts = []
        while isinstance(node, ast.Attribute):
            parts.append(node.attr)
            node = node.value
        if not isinstance(node, ast.Name) or node.id in locals_:
            return None
        r = self.resolve(mod, node.id)
        if r is None:
            return None
        if r[0] == "ext":
            return ("ext", ".".join([r[1]] + parts[::-1]))
        if r[0] == "module" and len(parts) == 1:
            return self.resolve(self.repo.module(r[1]), parts[0])
        return r if not parts else (r[0] + ".attr", r[1], parts[::-1])

    # ---- types of attributes ----
    def infer_attrs(self):
        for _ in range(3):
            for mn in self.modnames:
                m = self.repo.module(mn)
                for c in m.classes.values():
                    for f in list(c.methods.values()) + list(c.props.values()) + list(c.setters.values()):
                        fv = self.local_types(m, "%s.%s" % (mn, c.name), f, {})
                        for n in ast.walk(f):
                            if isinstance(n, ast.Assign):
                                for t in n.targets:
                                    if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == "self":
                                        ty = self.type_of(m, "%s.%s" % (mn, c.name), fv, n.value)
                                        if ty:
                                            self.attr_types.setdefault(("%s.%s" % (mn, c.name), t.attr), set()).update(ty)

    def fs_name(self, n):
        return n in ("fs", "fsw", "pyfs") or n.endswith("_fs") or n.endswith("fsw") or n.endswith("filesystem")

    def local_types(self, mod, cls, f, consts):
        """Local variable -> set of class quals / "fs" / "mem"."""
        env = {}
        for a in f.args.posonlyargs + f.args.args + f.args.kwonlyargs:
            if self.fs_name(a.arg):
                env[a.arg] = {"fs"}
        for a in (f.args.vararg, f.args.kwarg):
            if a is not None:
                env[a.arg] = {"mem"}
        if cls is not None and f.args.args:
            env[f.args.args[0].arg] = {cls}
        for _ in range(2):
            for n in ast.walk(f):
                ts, v = [], None
                if isinstance(n, ast.Assign):
                    ts, v = n.targets, n.value
                elif isinstance(n, ast.NamedExpr):
                    ts, v = [n.target], n.value
                elif isinstance(n, (ast.With, ast.AsyncWith)):
                    for i in n.items:
                        if isinstance(i.optional_vars, ast.Name):
                            ty = self.type_of(mod, cls, env, i.context_expr)
                            env.setdefault(i.optional_vars.id, set()).update({"mem"} if ty is None or ty == {"fs"} and not isinstance(i.context_expr, ast.Name) else ty)
                elif isinstance(n, (ast.For, ast.comprehension)):
                    ty = None
                    if isinstance(n.iter, ast.Call):
                        ty = self.elem_type(mod, cls, env, n.iter)
                    elif isinstance(n.iter, ast.Name) and ("elem:" + n.iter.id) in env:
                        ty = env["elem:" + n.iter.id]
                    for x in ast.walk(n.target):
                        if isinstance(x, ast.Name):
                            env.setdefault(x.id, set()).update(ty or set())
                for t in ts:
                    if isinstance(t, ast.Name):
                        ty = self.type_of(mod, cls, env, v)
                        if ty:
                            env.setdefault(t.id, set()).update(ty)
                        if isinstance(v, ast.Call):
                            et = self.elem_type(mod, cls, env, v)
                            if et:
                                env["elem:" + t.id] = et
        return env

    def elem_type(self, mod, cls, env, call):
        """Class of the elements a function of the package returns or yields in a list."""
        d = self.dotted(mod, call.func, env) if not (isinstance(call.func, ast.Name) and call.func.id in env) else None
        if d is None or d[0] != "func":
            return None
        m, c, f = self.repo.find(d[1])
        out = set()
        for n in ast.walk(f):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("append", "add") and n.args and isinstance(n.args[0], ast.Call):
                ty = self.type_of(m, None, {}, n.args[0])
                out |= ty or set()
            if isinstance(n, (ast.ListComp, ast.GeneratorExp)):
                out |= self.type_of(m, None, {}, n.elt) or set()
        return out or None

    def type_of(self, mod, cls, env, e):
        if isinstance(e, (ast.Constant, ast.List, ast.Dict, ast.Set, ast.Tuple, ast.ListComp, ast.DictComp, ast.SetComp, ast.GeneratorExp, ast.JoinedStr, ast.BinOp, ast.Compare)):
            return {"mem"} if not (isinstance(e, ast.Constant) and e.value is None) else None
        if isinstance(e, ast.Name):
            return env.get(e.id)
        if isinstance(e, ast.IfExp):
            a, b = self.type_of(mod, cls, env, e.body), self.type_of(mod, cls, env, e.orelse)
            return (a or set()) | (b or set()) or None
        if isinstance(e, ast.BoolOp):
            out = set()
            for v in e.values:
                out |= self.type_of(mod, cls, env, v) or set()
            return out or None
        if isinstance(e, ast.Subscript):
            t = self.type_of(mod, cls, env, e.value)
            if isinstance(e.value, ast.Name) and ("elem:" + e.value.id) in env and not isinstance(e.slice, ast.Slice):
                return env["elem:" + e.value.id]
            return {"mem"} if t == {"mem"} else None
        if isinstance(e, ast.Attribute):
            t = self.type_of(mod, cls, env, e.value) or set()
            out = set()
            for c in t:
                out |= self.attr_types.get((c, e.attr), set())
                p = self.repo.find("%s.%s" % (c, e.attr)) if "." in c else None
                if p is not None:
                    out |= self.return_type("%s.%s" % (c, e.attr))
            if not out and self.fs_name(e.attr):
                out = {"fs"}
            return out or None
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Name) and e.func.id in ("set", "list", "dict", "sorted", "str", "len", "int", "tuple", "frozenset", "enumerate", "range", "zip", "reversed", "open", "super"):
                return {"mem"} if e.func.id != "super" else None
            d = self.dotted(mod, e.func, env)
            if d is not None:
                if d[0] == "class":
                    return {d[1]}
                if d[0] == "func":
                    return self.return_type(d[1]) or None
                if d[0] == "ext":
                    return {"fs"} if d[1] in FS_MAKERS else {"mem"} if d[1].startswith(READ_MODULES) else None
                if d[0] == "class.attr":
                    return self.return_type("%s.%s" % (d[1], d[2][0])) or None
                return None
            if isinstance(e.func, ast.Attribute):
                t = self.type_of(mod, cls, env, e.func.value) or set()
                out = set()
                for c in t:
                    if c == "fs":
                        out |= {"mem"}
                    elif c == "mem":
                        out |= {"mem"}
                    else:
                        out |= self.return_type("%s.%s" % (c, e.func.attr))
                return out or None
        return None

    def return_type(self, qual, _seen=frozenset()):
        f = self.repo.find(qual)
        if f is None or qual in _seen or len(_seen) > 4:
            return set()
        key = ("rt", qual)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = set()
        m, c, n = f
        cls = "%s.%s" % (m.name, c.name) if c is not None else None
        env = self.local_types(m, cls, n, {})
        out = set()
        for x in ast.walk(n):
            if isinstance(x, ast.Return) and x.value is not None:
                out |= self.type_of(m, cls, env, x.value) or set()
        self.memo[key] = out
        return out

    # ---- roots an expression depends on ----
    def deps(self, f):
        """Local variable -> roots; flow-insensitive."""
        params = [a.arg for a in f.args.posonlyargs + f.args.args + f.args.kwonlyargs] + [a.arg for a in (f.args.vararg, f.args.kwarg) if a is not None]
        d = {p: {"param:" + p} for p in params if p != "self"}
        edges = []
        for n in ast.walk(f):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    edges += [(x.id, n.value) for x in self.targets(t)]
            elif isinstance(n, (ast.AugAssign, ast.AnnAssign, ast.NamedExpr)) and n.value is not None:
                edges += [(x.id, n.value) for x in self.targets(n.target)]
            elif isinstance(n, (ast.For, ast.comprehension)):
                edges += [(x.id, n.iter) for x in ast.walk(n.target) if isinstance(x, ast.Name)]
            elif isinstance(n, ast.With):
                for i in n.items:
                    if i.optional_vars is not None:
                        edges += [(x.id, i.context_expr) for x in ast.walk(i.optional_vars) if isinstance(x, ast.Name)]
        while True:
            grew = False
            for x, v in edges:
                s = self.origin(d, v)
                if not s <= d.get(x, set()):
                    d.setdefault(x, set()).update(s)
                    grew = True
            if not grew:
                return d

    def targets(self, t):
        return [x for x in ast.walk(t) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)]

    def origin(self, d, e):
        out = set()
        skip = set()
        for n in ast.walk(e):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "self":
                out.add("self." + n.attr)
                skip.add(id(n.value))
        for n in ast.walk(e):
            if isinstance(n, ast.Name) and id(n) not in skip:
                if n.id == "self":
                    out.add("self")
                out |= d.get(n.id, set())
        return out

    # ---- constants ----
    def const(self, mod, consts, e):
        if isinstance(e, ast.Constant):
            return e.value
        if isinstance(e, ast.Name):
            if e.id in consts:
                return consts[e.id]
            r = self.resolve(mod, e.id)
            if r is not None and r[0] == "const" and isinstance(r[1], ast.Constant):
                return r[1].value
        return UNSET

    def cond(self, mod, consts, e):
        """True / False / None (unknown)."""
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            v = self.cond(mod, consts, e.operand)
            return None if v is None else not v
        if isinstance(e, ast.BoolOp):
            vs = [self.cond(mod, consts, x) for x in e.values]
            if isinstance(e.op, ast.And):
                return False if False in vs else True if all(v is True for v in vs) else None
            return True if True in vs else False if all(v is False for v in vs) else None
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            a, b = self.const(mod, consts, e.left), self.const(mod, consts, e.comparators[0])
            if a is not UNSET and b is not UNSET:
                o = e.ops[0]
                if isinstance(o, (ast.Is, ast.Eq)):
                    return a == b and type(a) is type(b)
                if isinstance(o, (ast.IsNot, ast.NotEq)):
                    return not (a == b and type(a) is type(b))
            return None
        v = self.const(mod, consts, e)
        return None if v is UNSET else bool(v)

    # ---- the contract of a function ----
    def summary(self, qual, consts=()):
        """Summary of a function for the given constant arguments ((name, value), ...)."""
        key = (qual, tuple(sorted(consts, key=lambda x: x[0])))
        if key in self.active:
            return self.memo.get(key) or Summary()
        if key in self.memo and key in self.done:
            return self.memo[key]
        self.active.add(key)
        try:
            s = self.analyse(qual, dict(consts))
        finally:
            self.active.discard(key)
        old = self.memo.get(key)
        if old is None or old.mods != s.mods:
            self.changed = True
        self.memo[key] = s
        self.done.add(key)
        return s

    def contract(self, qual, consts=()):
        self.done = set()
        while True:
            self.changed = False
            self.done = set()
            s = self.summary(qual, consts)
            if not self.changed:
                return s

    def analyse(self, qual, consts):
        out = Summary()
        found = self.repo.find(qual)
        mod, cls, f = found
        clsq = "%s.%s" % (mod.name, cls.name) if cls is not None else None
        # a parameter that is assigned again is no constant
        for n in ast.walk(f):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                consts.pop(n.id, None)
        env, d = self.local_types(mod, clsq, f, consts), self.deps(f)
        locals_ = set(env) | set(d)
        mods = set()

        def site(n, roots, what):
            roots = set(roots)
            mods.update(roots)
            out.sites.append(Site(getattr(n, "lineno", f.lineno), ast.unparse(n)[:120], roots, what))

        def call_repo(n, q, bound, recv):
            fn = self.repo.find(q)
            if fn is None:
                out.unknown.append((n.lineno, ast.unparse(n)[:100], "function %s not found" % q))
                return
            g = fn[2]
            names = [a.arg for a in g.args.posonlyargs + g.args.args]
            pos = names[1:] if bound else names
            args, star = {}, False
            for k, a in enumerate(n.args if isinstance(n, ast.Call) else []):
                if isinstance(a, ast.Starred):
                    star = True
                elif k < len(pos):
                    args[pos[k]] = a
            for k in (n.keywords if isinstance(n, ast.Call) else []):
                if k.arg is None:
                    star = True
                else:
                    args[k.arg] = k.value
            cs = {}
            defaults = dict(zip(names[len(names) - len(g.args.defaults):], g.args.defaults))
            defaults.update({a.arg: v for a, v in zip(g.args.kwonlyargs, g.args.kw_defaults) if v is not None})
            for p in names + [a.arg for a in g.args.kwonlyargs]:
                if p in args:
                    v = self.const(mod, consts, args[p])
                elif p in defaults and not star:
                    v = self.const(fn[0], {}, defaults[p])
                else:
                    v = UNSET
                if v is not UNSET and (v is None or isinstance(v, (bool, str))):
                    cs[p] = v
            out.callees.add(q)
            s = self.summary(q, tuple(cs.items()))
            roots = set()
            for r in s.mods:
                if r.startswith("param:"):
                    a = args.get(r[6:])
                    if a is not None:
                        o = self.origin(d, a)
                        roots |= o if o else {"absolute"}
                    elif star:
                        roots.add("absolute")
                elif r == "self" or r.startswith("self."):
                    if recv is None:
                        pass
                    elif isinstance(recv, ast.Name) and recv.id == "self":
                        roots.add(r)
                    else:
                        o = self.origin(d, recv)
                        for k in [k for k in (n.keywords if isinstance(n, ast.Call) else [])] if recv is n else []:
                            o |= self.origin(d, k.value)
                        roots |= o if o else {"absolute"}
                else:
                    roots.add(r)
            site(n, roots, "call of %s" % q)

        def construct(n, q):
            q0 = q
            cl = self.repo.find(q + ".__init__")
            if cl is None:
                m2, cn = q.split(".")
                c = self.repo.module(m2).classes.get(cn)
                for b in (c.bases if c else []):
                    r = self.dotted(self.repo.module(m2), b, set())
                    if r and r[0] == "class":
                        return construct(n, r[1])
                site(n, (), "new %s" % q0)
                return
            call_repo(n, q + ".__init__", True, n)

        def indirect(n):
            """A function held in a value: any function of the package that is used as one and takes as many arguments."""
            for kind, q in self.indirect(n):
                if kind == "class":
                    construct(n, q)
                else:
                    call_repo(n, q, kind == "method", n.func)

        def method_quals(c, name):
            """Quals of method `name` for a receiver of class c (or a subclass of it)."""
            out_ = set()
            stack, seen = [c], set()
            while stack:
                q = stack.pop()
                if q in seen:
                    continue
                seen.add(q)
                m2, cn = q.split(".")
                ci = self.repo.module(m2).classes.get(cn) if self.repo.module(m2) else None
                if ci is None:
                    continue
                if self.repo.find("%s.%s" % (q, name)) is not None:
                    out_.add("%s.%s" % (q, name))
                else:
                    for b in ci.bases:
                        r = self.dotted(self.repo.module(m2), b, set())
                        if r and r[0] == "class":
                            stack.append(r[1])
            for mn in self.modnames:
                for ci in self.repo.module(mn).classes.values():
                    for b in ci.bases:
                        r = self.dotted(self.repo.module(mn), b, set())
                        if r == ("class", c) and "%s.%s" % (mn, ci.name) != c:
                            out_ |= method_quals("%s.%s" % (mn, ci.name), name)
            return out_

        def mode_of(n, k):
            m = None
            if len(n.args) > k:
                m = n.args[k]
            for kw in n.keywords:
                if kw.arg == "mode":
                    m = kw.value
                if kw.arg is None and m is None:
                    m = m
            if m is None:
                return "r"
            v = self.const(mod, consts, m)
            return v if v is not UNSET else None

        def opened(n, m, o):
            if m is None:
                out.unknown.append((n.lineno, ast.unparse(n)[:100], "open with a mode that is no constant"))
            else:
                site(n, () if m in READ_MODES else (o or {"absolute"}), "open with mode %s" % (m,))

        def attr_use(n, recv, name, call):
            """n: the call or the reference; recv.name"""
            ty = self.type_of(mod, clsq, env, recv)
            o = self.origin(d, recv)
            if ty is None and isinstance(recv, ast.Call) and isinstance(recv.func, ast.Name) and recv.func.id == "super" and cls is not None:
                for b in cls.bases:
                    r = self.dotted(mod, b, set())
                    if r and r[0] == "class":
                        for q in method_quals(r[1], name):
                            call_repo(n, q, True, ast.Name("self", ast.Load()))
                return
            ty = ty or set()
            done = False
            for c in sorted(ty):
                if c == "fs":
                    done = True
                    if name == "open":
                        m = mode_of(n, 1) if call else None
                        opened(n, m, o)
                    elif name in FS_WRITE:
                        site(n, o or {"absolute"}, "filesystem operation %s" % name)
                    elif name in FS_READ:
                        site(n, (), "filesystem operation %s" % name)
                    elif call and name not in MEMORY:
                        out.unknown.append((n.lineno, ast.unparse(n)[:100], "filesystem method %s" % name))
                elif c == "mem":
                    done = True
                    if call:
                        site(n, (), "method of a value in memory")
                elif "." in c:
                    qs = method_quals(c, name)
                    if qs:
                        done = True
                        for q in sorted(qs):
                            fn = self.repo.find(q)
                            if call or name in (fn[1].props if fn[1] else {}):
                                call_repo(n, q, fn[1] is None or fn[1].kinds.get(name) != "static", recv)
            if done or not call and name not in (FS_WRITE - AMBIGUOUS):
                return
            if name in FS_WRITE - AMBIGUOUS and name not in self.methods:
                site(n, o or {"absolute"}, "filesystem operation %s" % name)
            elif name in MEMORY and (name not in AMBIGUOUS or not self.maybe_fs(recv)):
                site(n, (), "method of a value in memory")
            elif name == "open":
                m = mode_of(n, 1)
                opened(n, m, o)
            elif name in self.methods:
                for q in sorted(self.methods[name]):
                    fn = self.repo.find(q)
                    if call or name in fn[1].props:
                        call_repo(n, q, True, recv)
            elif name in FS_READ or name in MEMORY:
                site(n, (), "method")
            elif name in FS_WRITE:
                site(n, o or {"absolute"}, "filesystem operation %s" % name)
            elif call and isinstance(recv, ast.Name) and recv.id in d and not ty:
                out.unknown.append((n.lineno, ast.unparse(n)[:100], "method %s of an unknown value" % name))
            elif call and isinstance(recv, ast.Name) and recv.id == "self":
                indirect(n)
            elif call:
                out.unknown.append((n.lineno, ast.unparse(n)[:100], "method %s" % name))

        def block(body):
            """Visit the statements that can be reached; True if control never leaves at the end."""
            for b in body:
                if visit(b):
                    return True
            return False

        def visit(n):
            if isinstance(n, ast.If):
                v = self.cond(mod, consts, n.test)
                visit(n.test)
                a = block(n.body) if v is not False else True
                b = block(n.orelse) if v is not True else True
                return a and b
            if isinstance(n, (ast.Return, ast.Raise, ast.Continue, ast.Break)):
                for c in ast.iter_child_nodes(n):
                    visit(c)
                return True
            if isinstance(n, (ast.For, ast.While, ast.AsyncFor)):
                for c in ([n.iter, n.target] if not isinstance(n, ast.While) else [n.test]):
                    visit(c)
                block(n.body)
                block(n.orelse)
                return
            if isinstance(n, (ast.With, ast.AsyncWith)):
                for i in n.items:
                    visit(i.context_expr)
                    if i.optional_vars is not None:
                        visit(i.optional_vars)
                block(n.body)
                return
            if isinstance(n, ast.Try):
                block(n.body)
                for h in n.handlers:
                    if h.type is not None:
                        visit(h.type)
                    block(h.body)
                block(n.orelse)
                block(n.finalbody)
                return
            if isinstance(n, ast.BoolOp):
                for x in n.values:
                    visit(x)
                    v = self.cond(mod, consts, x)
                    if v is (False if isinstance(n.op, ast.And) else True):
                        break
                return
            if isinstance(n, ast.IfExp):
                v = self.cond(mod, consts, n.test)
                visit(n.test)
                if v is not False:
                    visit(n.body)
                if v is not True:
                    visit(n.orelse)
                return
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)) and n is not f:
                block(n.body if isinstance(n.body, list) else [n.body])
                return
            if isinstance(n, ast.Call):
                g = n.func
                for a in n.args:
                    visit(a)
                for k in n.keywords:
                    visit(k.value)
                if isinstance(g, ast.Name):
                    r = self.resolve(mod, g.id) if g.id not in d and g.id not in {x.name for x in ast.walk(f) if isinstance(x, ast.FunctionDef)} else ("local",)
                    if r is None:
                        import builtins
                        if g.id == "open":
                            m = mode_of(n, 1)
                            o = self.origin(d, n.args[0]) if n.args else set()
                            opened(n, m, o)
                        elif g.id in BUILTIN_WRITE:
                            out.unknown.append((n.lineno, ast.unparse(n)[:100], "builtin %s" % g.id))
                        elif hasattr(builtins, g.id):
                            site(n, (), "builtin")
                        else:
                            out.unknown.append((n.lineno, ast.unparse(n)[:100], "unknown name"))
                    elif r[0] == "func":
                        call_repo(n, r[1], False, None)
                    elif r[0] == "class":
                        construct(n, r[1])
                    elif r[0] == "ext":
                        ext(n, r[1])
                    elif r[0] == "local":
                        inner = [x for x in ast.walk(f) if isinstance(x, ast.FunctionDef) and x is not f and x.name == g.id]
                        if not inner and not (env.get(g.id) or set()) & {"mem"}:
                            # a function held in a variable: where it is a bound method it was judged where it was taken
                            if any(isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == g.id for t in x.targets) and isinstance(x.value, ast.Attribute) for x in ast.walk(f)):
                                site(n, (), "bound method judged at its reference")
                            elif "param:" + g.id in d.get(g.id, set()):
                                site(n, (), "function passed as an argument")
                            else:
                                indirect(n)
                    else:
                        out.unknown.append((n.lineno, ast.unparse(n)[:100], "call of a constant"))
                    return
                if isinstance(g, ast.Attribute):
                    dn = self.dotted(mod, g, locals_)
                    if dn is not None:
                        if dn[0] == "ext":
                            visit_children_of_attr(g)
                            ext(n, dn[1])
                            return
                        if dn[0] == "func":
                            call_repo(n, dn[1], False, None)
                            return
                        if dn[0] == "class":
                            construct(n, dn[1])
                            return
                        if dn[0] == "class.attr" and len(dn[2]) == 1:
                            call_repo(n, "%s.%s" % (dn[1], dn[2][0]), False, None) if self.repo.find("%s.%s" % (dn[1], dn[2][0])) else site(n, (), "class attribute")
                            return
                        if dn[0] == "const.attr" and dn[2][-1] in MEMORY:
                            site(n, (), "method of a constant")
                            return
                    visit(g.value)
                    attr_use(n, g.value, g.attr, True)
                    return
                visit(g)
                if isinstance(g, ast.Subscript) or isinstance(g, ast.Call):
                    cl = self.class_table(mod, clsq, g)
                    if cl:
                        for q in cl:
                            construct(n, q)
                        return
                indirect(n)
                return
            if isinstance(n, ast.Attribute):
                visit(n.value)
                if isinstance(n.ctx, ast.Load) and self.dotted(mod, n, locals_) is None:
                    attr_use(n, n.value, n.attr, False)
                elif isinstance(n.ctx, ast.Load):
                    dn = self.dotted(mod, n, locals_)
                    if dn[0] == "ext" and (dn[1] in WRITE_FUNCS or dn[1].startswith(WRITE_MODULES)):
                        site(n, {"absolute"}, "library function %s" % dn[1])
                return
            for c in ast.iter_child_nodes(n):
                visit(c)

        def visit_children_of_attr(g):
            pass

        def ext(n, name):
            if name in WRITE_FUNCS or name.split(".")[0] in WRITE_MODULES:
                o = set()
                for a in n.args:
                    o |= self.origin(d, a)
                site(n, o or {"absolute"}, "library function %s" % name)
            elif name in ("io.open", "codecs.open"):
                m = mode_of(n, 1)
                o = self.origin(d, n.args[0]) if n.args else set()
                opened(n, m, o)
            elif name in READ_FUNCS or name.startswith(tuple(m + "." for m in READ_MODULES)) or name in READ_MODULES:
                site(n, (), "library function %s" % name)
            else:
                out.unknown.append((n.lineno, ast.unparse(n)[:100], "library function %s" % name))

        block(f.body)
        # decorators and defaults are evaluated when the module is loaded
        out.mods = frozenset(mods)
        return out

    def maybe_fs(self, e):
        return (isinstance(e, ast.Name) and self.fs_name(e.id)) or (isinstance(e, ast.Attribute) and self.fs_name(e.attr))

    def class_table(self, mod, cls, e):
        """Classes a subscripted table of the module holds."""
        if isinstance(e, ast.Subscript) and isinstance(e.value, ast.Name):
            r = self.resolve(mod, e.value.id)
            if r is not None and r[0] == "const" and isinstance(r[1], ast.Dict):
                out = []
                for v in r[1].values:
                    if not isinstance(v, ast.Name):
                        return None
                    c = self.resolve(mod, v.id)
                    if c is None or c[0] != "class":
                        return None
                    out.append(c[1])
                return out
        return None
