"""Interpretation of Python syntax trees over abstract values.

Names, networks and flags are tokens that stand for any value of their kind (what is done with one is what is done with any other);
numbers that depend on how much was written are unknown; what an unknown decides is tried both ways.  Nothing of the code is executed
by Python: statements and expressions are interpreted here, and what the code calls outside of the module is modelled or opaque."""
import ast, math, itertools
from frontend import AnalysisError

class Opaque:
	def __init__(self, name): self.name = name
	def __repr__(self): return self.name
	def __str__(self): return "\x01%s\x02" % self.name
	def __eq__(self, o): return isinstance(o, Opaque) and o.name == self.name
	def __hash__(self): return hash(self.name)
class Num(Opaque):
	"""A number that is not known, at least 1."""
	def __init__(self): self.name = "num"
class Obj:
	"""An instance of a class of the module, or something modelled (methods: name -> function)."""
	def __init__(self, cls=None, methods=None, attrs=None, name="object"):
		self.cls, self.methods, self.attrs, self.name = cls, methods or {}, attrs or {}, name
	def __repr__(self): return self.name
	def __str__(self): return "\x01%s\x02" % self.name
class Cls:
	def __init__(self, node): self.node, self.name = node, node.name
class Bound:
	def __init__(self, fn, selfv=None, cls=None, env=None): self.fn, self.selfv, self.cls, self.env = fn, selfv, cls, env
class Lib:
	"""A name of another module."""
	def __init__(self, name): self.name = name
	def __repr__(self): return self.name
	def __str__(self): return "\x01%s\x02" % self.name
	def __eq__(self, o): return isinstance(o, Lib) and o.name == self.name
	def __hash__(self): return hash(self.name)
class Raised(Exception):
	def __init__(self, name, node=None): self.name, self.node = name, node
class Ret(Exception):
	def __init__(self, v): self.v = v
class Brk(Exception): pass
class Cnt(Exception): pass

NATIVE = (str, bytes, int, float, bool, type(None), list, tuple, dict, set, frozenset, range)
PURE = {"len": len, "max": max, "min": min, "sorted": sorted, "list": list, "dict": dict, "set": set, "tuple": tuple, "str": str, "enumerate": lambda *a: list(enumerate(*a)), "zip": lambda *a: list(zip(*a)), "any": any, "all": all, "range": range, "int": int,
	"repr": repr, "bool": bool, "frozenset": frozenset, "reversed": lambda x: list(reversed(x)), "iter": iter, "next": next, "sum": sum, "abs": abs, "round": round, "bytes": bytes, "float": float, "format": format, "map": None, "filter": None}
BASES = {"KeyError": "LookupError", "IndexError": "LookupError", "LookupError": "Exception", "TypeError": "Exception", "ValueError": "Exception", "AttributeError": "Exception", "io.UnsupportedOperation": "OSError", "OSError": "Exception", "StopIteration": "Exception", "Exception": "BaseException"}

class Eval:
	def __init__(self, tree, rel, models=None):
		self.tree, self.rel, self.models = tree, rel, models or {}
		self.glob, self.imports = {}, {}
		self.choices, self.pos, self.steps = [], 0, 0
		self.lines = set()
		for n in tree.body:
			if isinstance(n, ast.Import):
				for a in n.names: self.imports[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
			elif isinstance(n, ast.ImportFrom):
				for a in n.names: self.imports[a.asname or a.name] = (n.module + "." if n.module else "") + a.name
	def err(self, n, what): raise AnalysisError("%s:%d: %s" % (self.rel, getattr(n, "lineno", 0), what))
	def load(self):
		"""Evaluates what the module defines."""
		for n in self.tree.body:
			if isinstance(n, ast.FunctionDef): self.glob[n.name] = Bound(n)
			elif isinstance(n, ast.ClassDef): self.glob[n.name] = Cls(n)
			elif isinstance(n, ast.Assign): self.stmt(self.glob, n, None)
	# -- choices
	def runs(self, f, limit=4096):
		"""Every result of f over every way its choices may go."""
		self.choices = []
		for _ in range(limit):
			self.pos = 0
			yield f()
			while self.choices and self.choices[-1][0] + 1 >= self.choices[-1][1]: self.choices.pop()
			if not self.choices: return
			self.choices[-1] = (self.choices[-1][0] + 1, self.choices[-1][1])
		raise AnalysisError("%s: more than %d ways" % (self.rel, limit))
	def choose(self, n):
		if self.pos == len(self.choices): self.choices.append((0, n))
		self.pos += 1
		return self.choices[self.pos - 1][0]
	def truth(self, v):
		if isinstance(v, Num): return True
		if isinstance(v, Opaque) and v.name.startswith("?"): return bool(self.choose(2))
		return bool(v) if isinstance(v, NATIVE) else True
	# -- names
	def methods(self, cls):
		"""Classes in the order they are searched."""
		out = []
		while cls is not None:
			out.append(cls)
			b = [x.id for x in cls.node.bases if isinstance(x, ast.Name)]
			cls = next((self.glob[x] for x in b if isinstance(self.glob.get(x), Cls)), None)
		return out
	def find(self, cls, name):
		for c in self.methods(cls):
			for m in c.node.body:
				if isinstance(m, ast.FunctionDef) and m.name == name: return c, m
				if isinstance(m, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in m.targets): return c, m
		return None, None
	def attr(self, o, a, n):
		if isinstance(o, Lib): return Lib(o.name + "." + a)
		if isinstance(o, tuple) and len(o) == 3 and o[0] == "super":
			for c in self.methods(o[1])[1:]:
				for m in c.node.body:
					if isinstance(m, ast.FunctionDef) and m.name == a: return Bound(m, o[2], c)
			return Lib("object." + a)
		if isinstance(o, Obj):
			if a in o.attrs: return o.attrs[a]
			if a in o.methods: return o.methods[a]
			if a == "__class__" and o.cls: return o.cls
			if o.cls is not None:
				c, m = self.find(o.cls, a)
				if isinstance(m, ast.FunctionDef):
					d = [x.id for x in m.decorator_list if isinstance(x, ast.Name)]
					if "property" in d: return self.call(Bound(m, o, c), [], {}, n)
					if "staticmethod" in d: return Bound(m, None, c)
					if "classmethod" in d: return Bound(m, o.cls, c)
					return Bound(m, o, c)
				if m is not None: return self.ev({}, m.value, c)
			if o.cls is None and "*" in o.methods: return o.methods["*"](a)
			raise Raised("AttributeError", n)
		if isinstance(o, Cls):
			if a == "__name__": return o.name
			c, m = self.find(o, a)
			if isinstance(m, ast.FunctionDef): return Bound(m, None, c)
			if m is not None: return self.ev({}, m.value, c)
			raise Raised("AttributeError", n)
		if isinstance(o, NATIVE):
			if not hasattr(o, a): raise Raised("AttributeError", n)
			return ("method", o, a)
		if isinstance(o, Opaque): return Opaque("%s.%s" % (o.name, a))
		return Lib("?." + a)
	# -- calls
	def call(self, f, args, kw, n):
		self.steps += 1
		if self.steps > 4000000: self.err(n, "too many steps")
		if callable(f) and not isinstance(f, (Obj, Lib, Bound, Cls)): return f(*args, **kw)
		if isinstance(f, Cls):
			o = Obj(f, name=f.name)
			c, m = self.find(f, "__init__")
			if isinstance(m, ast.FunctionDef): self.call(Bound(m, o, c), args, kw, n)
			return o
		if isinstance(f, Bound):
			fn = f.fn
			if isinstance(fn, ast.Lambda): names = [x.arg for x in fn.args.args]; body = [ast.Return(value=fn.body, lineno=fn.lineno)]
			else: names = [x.arg for x in fn.args.posonlyargs + fn.args.args]; body = fn.body
			if f.selfv is not None: args = [f.selfv] + list(args)
			env = dict(f.env) if f.env is not None else {}
			a = fn.args
			for i, x in enumerate(names):
				if i < len(args): env[x] = args[i]
				elif x in kw: env[x] = kw[x]
				else:
					d = i - (len(names) - len(a.defaults))
					if d < 0: raise Raised("TypeError", n)
					env[x] = self.ev(self.glob, a.defaults[d], f.cls)
			for x, d in zip(a.kwonlyargs, a.kw_defaults): env[x.arg] = kw[x.arg] if x.arg in kw else self.ev(self.glob, d, f.cls)
			if a.vararg: env[a.vararg.arg] = tuple(args[len(names):])
			if a.kwarg: env[a.kwarg.arg] = {k: v for k, v in kw.items() if k not in names}
			if any(isinstance(y, (ast.Yield, ast.YieldFrom)) for x in body for y in ast.walk(x)):
				env["!yield"] = []
				try: self.block(env, body, f.cls)
				except Ret: pass
				return env["!yield"]
			env["!self"] = f.selfv
			try: self.block(env, body, f.cls)
			except Ret as r: return r.v
			return None
		if isinstance(f, tuple) and f and f[0] == "method":
			_, o, a = f
			if isinstance(o, str) and a == "format": return self.format(o, args, kw)
			if any(isinstance(x, Num) for x in args) and a not in ("append", "add", "get", "setdefault"): return Num()
			if a == "join": args = [[str(x) if isinstance(x, Opaque) and False else x for x in self.items(args[0], n)]]
			try: r = getattr(o, a)(*args, **kw)
			except KeyError: raise Raised("KeyError", n)
			except (TypeError, ValueError, IndexError, AttributeError) as e: raise Raised(type(e).__name__, n)
			return list(r) if type(r).__name__ in ("dict_keys", "dict_values", "dict_items") else r
		if isinstance(f, Lib):
			if f.name in self.models: return self.models[f.name](*args, **kw)
			if f.name == "super": return ("super", self.cls_of, self.self_of)
			if f.name == "isinstance":
				o, t = args
				for c in (t if isinstance(t, tuple) else (t,)):
					if isinstance(o, Obj) and o.cls is not None and isinstance(c, Cls) and c in self.methods(o.cls): return True
					if isinstance(o, Obj) and isinstance(c, Lib) and o.name == c.name: return True
					if isinstance(o, NATIVE) and isinstance(c, Lib) and c.name == type(o).__name__: return True
				return False
			if f.name in ("map", "filter"):
				l = [(x, self.call(args[0], [x], {}, n)) for x in self.items(args[1], n)]
				return [y for x, y in l] if f.name == "map" else [x for x, y in l if self.truth(y)]
			if f.name == "print": return None
			if f.name == "type" and len(args) == 1 and isinstance(args[0], Obj): return args[0].cls
			if f.name in ("getattr", "hasattr"):
				try: r = self.attr(args[0], args[1], n)
				except Raised:
					if f.name == "hasattr": return False
					if len(args) > 2: return args[2]
					raise
				return True if f.name == "hasattr" else r
			if f.name == "setattr": args[0].attrs[args[1]] = args[2]; return None
			if any(isinstance(x, Num) for x in args) and (f.name.startswith("math.") or f.name in ("max", "min", "int", "round", "float", "abs")): return Num()
			if f.name == "str" and isinstance(args[0], Num): return Num()
			if f.name == "sum" and any(isinstance(x, (Lib, frozenset)) for x in args[0]):
				r = 0
				for x in args[0]: r = self.binop(r, ast.BitOr(), x, n)
				return r
			if f.name in PURE:
				try:
					if "key" in kw and not callable(kw["key"]): k = kw.pop("key"); kw["key"] = lambda x: self.call(k, [x], {}, n)
					return PURE[f.name](*args, **kw)
				except StopIteration: raise Raised("StopIteration", n)
				except (TypeError, ValueError): self.err(n, "%s of values that are not known" % f.name)
			if f.name.startswith("math."): return getattr(math, f.name[5:])(*args)
			if f.name == "os.path.join" and all(isinstance(x, str) or isinstance(x, Opaque) for x in args): return "/".join(str(x) for x in args)
			if f.name == "collections.defaultdict": return {}
			if f.name == "itertools.chain": return [y for x in args for y in self.items(x, n)]
			return Opaque("?%s()" % f.name if not f.name.startswith(("log.", "logging.")) else f.name)
		return Opaque("?call")
	def items(self, v, n):
		if isinstance(v, (list, tuple, set, frozenset, dict, range, str)): return list(v)
		if hasattr(v, "__next__"): return list(v)
		self.err(n, "iterates over something that is not known")
	def one(self, spec, v):
		"""A value formatted with a specification (flags and width, type)."""
		if isinstance(v, Num):
			w = spec.rstrip("dfgexXcs")
			w = "".join(c for c in w if c.isdigit()).lstrip("0") or "0"
			return "\x01num:%s\x02" % (w if int(w) >= 8 else "?")
		try: return ("%" + spec) % v
		except TypeError: raise Raised("TypeError")
	def percent(self, f, v, n):
		import re
		vs = list(v) if isinstance(v, tuple) else [v]
		mapping = v if isinstance(v, dict) else None
		def sub(m):
			if m.group(0) == "%%": return "%"
			x = mapping[m.group(1)] if m.group(1) else vs.pop(0) if vs else self.err(n, "too few values")
			return self.one(m.group(2), x)
		return re.sub(r"%(?:\(([^)]*)\))?([-+ #0]*\d*(?:\.\d+)?[a-zA-Z%])|%%", lambda m: "%" if m.group(0) == "%%" else sub(m), f)
	def format(self, f, args, kw):
		import string
		out, k = "", 0
		for lit, name, spec, conv in string.Formatter().parse(f):
			out += lit
			if name is None: continue
			if name == "": x = args[k]; k += 1
			elif name.isdigit(): x = args[int(name)]
			else: x = kw[name]
			out += self.one2(spec or "", x)
		return out
	def one2(self, spec, x):
		if isinstance(x, Num): return self.one(spec or "d", x)
		return format(x, spec) if not isinstance(x, (Opaque, Obj, Lib)) else str(x)
	# -- expressions
	def ev(self, env, n, cls=None):
		self.steps += 1
		m = getattr(self, "x_" + type(n).__name__, None)
		if m is None: self.err(n, "%s expressions are not supported" % type(n).__name__)
		return m(env, n, cls)
	def x_Constant(self, env, n, cls): return n.value
	def x_Name(self, env, n, cls):
		if n.id in env: return env[n.id]
		if n.id in self.glob: return self.glob[n.id]
		if n.id == "super": self.cls_of, self.self_of = cls, env.get("!self")
		return Lib(self.imports.get(n.id, n.id))
	def x_Attribute(self, env, n, cls): return self.attr(self.ev(env, n.value, cls), n.attr, n)
	def seq(self, env, elts, cls):
		out = []
		for e in elts:
			if isinstance(e, ast.Starred): out += self.items(self.ev(env, e.value, cls), e)
			else: out.append(self.ev(env, e, cls))
		return out
	def x_Tuple(self, env, n, cls): return tuple(self.seq(env, n.elts, cls))
	def x_List(self, env, n, cls): return self.seq(env, n.elts, cls)
	def x_Set(self, env, n, cls): return set(self.seq(env, n.elts, cls))
	def x_Dict(self, env, n, cls):
		d = {}
		for k, v in zip(n.keys, n.values):
			if k is None: d.update(self.ev(env, v, cls))
			else: d[self.ev(env, k, cls)] = self.ev(env, v, cls)
		return d
	def x_Lambda(self, env, n, cls): return Bound(n, None, cls, env)
	def x_NamedExpr(self, env, n, cls): env[n.target.id] = v = self.ev(env, n.value, cls); return v
	def x_IfExp(self, env, n, cls): return self.ev(env, n.body if self.truth(self.ev(env, n.test, cls)) else n.orelse, cls)
	def x_BoolOp(self, env, n, cls):
		for x in n.values:
			v = self.ev(env, x, cls)
			if x is n.values[-1]: return v
			if self.truth(v) == isinstance(n.op, ast.Or): return v
	def x_UnaryOp(self, env, n, cls):
		v = self.ev(env, n.operand, cls)
		if isinstance(n.op, ast.Not): return not self.truth(v)
		if isinstance(v, Opaque): return Num()
		return -v if isinstance(n.op, ast.USub) else ~v if isinstance(n.op, ast.Invert) else v
	def x_BinOp(self, env, n, cls):
		return self.binop(self.ev(env, n.left, cls), n.op, self.ev(env, n.right, cls), n)
	def binop(self, a, op, b, n):
		import operator
		if isinstance(op, ast.Mod) and isinstance(a, str): return self.percent(a, b, n)
		if isinstance(op, ast.Add) and isinstance(a, (str, bytes, list, tuple)) and isinstance(b, type(a)): return a + b
		if isinstance(a, Num) or isinstance(b, Num): return Num()
		if isinstance(op, (ast.BitOr, ast.BitAnd, ast.Add)) and (isinstance(a, (Lib, frozenset)) or isinstance(b, (Lib, frozenset))):
			# flags: sets of tokens
			s = lambda x: frozenset({x}) if isinstance(x, Lib) else x if isinstance(x, frozenset) else frozenset() if x == 0 else self.err(n, "flags")
			return s(a) & s(b) if isinstance(op, ast.BitAnd) else s(a) | s(b)
		ops = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Div: operator.truediv, ast.FloorDiv: operator.floordiv, ast.Mod: operator.mod, ast.Pow: operator.pow, ast.BitOr: operator.or_, ast.BitAnd: operator.and_, ast.LShift: operator.lshift, ast.RShift: operator.rshift, ast.BitXor: operator.xor}
		if isinstance(a, Opaque) or isinstance(b, Opaque): return Opaque("?bin")
		try: return ops[type(op)](a, b)
		except TypeError: raise Raised("TypeError", n)
	def x_Compare(self, env, n, cls):
		a = self.ev(env, n.left, cls)
		for op, r in zip(n.ops, n.comparators):
			b = self.ev(env, r, cls)
			t = type(op).__name__
			if t in ("In", "NotIn"):
				if isinstance(b, Obj): v = a in b.attrs
				elif not isinstance(b, (list, tuple, set, frozenset, dict, str, range)): v = bool(self.choose(2))
				else: v = a in b
				v = v == (t == "In")
			elif t in ("Is", "IsNot"): v = (a is b or a == b and type(a) == type(b)) == (t == "Is")
			elif t in ("Eq", "NotEq"): v = (bool(self.choose(2)) if isinstance(a, Num) or isinstance(b, Num) else a == b) == (t == "Eq")
			elif isinstance(a, (int, float)) and isinstance(b, (int, float)) or isinstance(a, str) and isinstance(b, str): v = {"Lt": a < b, "LtE": a <= b, "Gt": a > b, "GtE": a >= b}[t]
			elif isinstance(a, Num) and b in (0, 1) and t in ("GtE",) or isinstance(a, Num) and b == 0 and t == "Gt": v = True
			else: v = bool(self.choose(2))
			if not v: return False
			a = b
		return True
	def x_Subscript(self, env, n, cls):
		o, k = self.ev(env, n.value, cls), self.ev(env, n.slice, cls)
		if isinstance(o, Opaque): return Opaque("?item")
		try: return o[k]
		except KeyError: raise Raised("KeyError", n)
		except IndexError: raise Raised("IndexError", n)
		except TypeError: raise Raised("TypeError", n)
	def x_Slice(self, env, n, cls): return slice(*[self.ev(env, x, cls) if x is not None else None for x in (n.lower, n.upper, n.step)])
	def x_JoinedStr(self, env, n, cls):
		out = ""
		for x in n.values:
			if isinstance(x, ast.Constant): out += x.value; continue
			out += self.one2(self.ev(env, x.format_spec, cls) if x.format_spec else "", self.ev(env, x.value, cls))
		return out
	def comp(self, env, n, cls, f):
		out = []
		def go(e, k):
			if k == len(n.generators): out.append(f(e)); return
			g = n.generators[k]
			for v in self.items(self.ev(e, g.iter, cls), n):
				e2 = dict(e)
				self.assign(e2, g.target, v, cls)
				if all(self.truth(self.ev(e2, c, cls)) for c in g.ifs): go(e2, k + 1)
		go(env, 0)
		return out
	def x_ListComp(self, env, n, cls): return self.comp(env, n, cls, lambda e: self.ev(e, n.elt, cls))
	x_GeneratorExp = x_ListComp
	def x_SetComp(self, env, n, cls): return set(self.x_ListComp(env, n, cls))
	def x_DictComp(self, env, n, cls): return dict(self.comp(env, n, cls, lambda e: (self.ev(e, n.key, cls), self.ev(e, n.value, cls))))
	def x_Call(self, env, n, cls):
		f = self.ev(env, n.func, cls)
		args = self.seq(env, n.args, cls)
		kw = {}
		for k in n.keywords:
			if k.arg is None: kw.update(self.ev(env, k.value, cls))
			else: kw[k.arg] = self.ev(env, k.value, cls)
		return self.call(f, args, kw, n)
	def x_Yield(self, env, n, cls): env["!yield"].append(self.ev(env, n.value, cls) if n.value else None)
	def x_YieldFrom(self, env, n, cls): env["!yield"] += self.items(self.ev(env, n.value, cls), n)
	# -- statements
	def assign(self, env, t, v, cls):
		if isinstance(t, ast.Name): env[t.id] = v
		elif isinstance(t, ast.Attribute):
			o = self.ev(env, t.value, cls)
			if isinstance(o, (Lib, Opaque)): return
			if not isinstance(o, Obj): self.err(t, "assigns to an attribute of something that is not known")
			o.attrs[t.attr] = v
		elif isinstance(t, ast.Subscript): self.ev(env, t.value, cls)[self.ev(env, t.slice, cls)] = v
		elif isinstance(t, (ast.Tuple, ast.List)) and not any(isinstance(x, ast.Starred) for x in t.elts):
			for x, y in zip(t.elts, self.items(v, t)): self.assign(env, x, y, cls)
		else: self.err(t, "target")
	def block(self, env, body, cls):
		for n in body: self.stmt(env, n, cls)
	def stmt(self, env, n, cls):
		self.lines.add(n.lineno)
		t = type(n).__name__
		if t == "Expr": self.ev(env, n.value, cls)
		elif t == "Assign":
			v = self.ev(env, n.value, cls)
			for x in n.targets: self.assign(env, x, v, cls)
		elif t == "AnnAssign":
			if n.value is not None: self.assign(env, n.target, self.ev(env, n.value, cls), cls)
		elif t == "AugAssign":
			o = self.ev(env, n.target, cls)
			v = self.ev(env, n.value, cls)
			if isinstance(n.target, ast.Attribute) and isinstance(o, int) and not isinstance(o, bool) and isinstance(n.op, ast.Add): v = Num()
			elif isinstance(o, list) and isinstance(n.op, ast.Add): o += self.items(v, n); v = o
			else: v = self.binop(o, n.op, v, n)
			self.assign(env, n.target, v, cls)
		elif t == "If": self.block(env, n.body if self.truth(self.ev(env, n.test, cls)) else n.orelse, cls)
		elif t == "For":
			for v in self.items(self.ev(env, n.iter, cls), n):
				self.assign(env, n.target, v, cls)
				try: self.block(env, n.body, cls)
				except Brk: break
				except Cnt: continue
			else: self.block(env, n.orelse, cls)
		elif t == "While":
			k = 0
			while self.truth(self.ev(env, n.test, cls)):
				k += 1
				if k > 500: self.err(n, "loop does not end")
				try: self.block(env, n.body, cls)
				except Brk: break
				except Cnt: continue
			else: self.block(env, n.orelse, cls)
		elif t == "Return": raise Ret(self.ev(env, n.value, cls) if n.value is not None else None)
		elif t == "Raise":
			if n.exc is None: raise env.get("!exc") or Raised("RuntimeError", n)
			x = n.exc.func if isinstance(n.exc, ast.Call) else n.exc
			x = self.ev(env, x, cls)
			raise Raised(x.name if isinstance(x, (Lib, Cls)) else "Exception", n)
		elif t == "Try":
			try:
				try:
					self.block(env, n.body, cls)
					self.block(env, n.orelse, cls)
				except Raised as e:
					for h in n.handlers:
						ts = self.ev(env, h.type, cls) if h.type is not None else None
						names = [x.name for x in (ts if isinstance(ts, tuple) else (ts,))] if ts is not None else ["BaseException"]
						c = e.name
						while c and c not in names: c = BASES.get(c, "Exception" if c not in ("Exception", "BaseException") else None)
						if c:
							if h.name: env[h.name] = Opaque(e.name)
							old = env.get("!exc"); env["!exc"] = e
							self.block(env, h.body, cls)
							env["!exc"] = old
							break
					else: raise
			finally: self.block(env, n.finalbody, cls)
		elif t == "With":
			sup = []
			for i in n.items:
				v = self.ev(env, i.context_expr, cls)
				if isinstance(v, tuple) and v and v[0] == "suppress": sup += v[1]
				if i.optional_vars is not None: self.assign(env, i.optional_vars, v, cls)
			try: self.block(env, n.body, cls)
			except Raised as e:
				c = e.name
				while c and c not in sup: c = BASES.get(c, "Exception" if c not in ("Exception", "BaseException") else None)
				if not c: raise
		elif t == "FunctionDef": env[n.name] = Bound(n, None, cls, env)
		elif t == "Break": raise Brk()
		elif t == "Continue": raise Cnt()
		elif t == "Delete":
			for x in n.targets:
				if isinstance(x, ast.Name): env.pop(x.id, None)
				elif isinstance(x, ast.Subscript): self.ev(env, x.value, cls).pop(self.ev(env, x.slice, cls), None)
		elif t in ("Pass", "Import", "ImportFrom", "Global", "Nonlocal", "Assert", "ClassDef"): pass
		else: self.err(n, "%s statements are not supported" % t)
