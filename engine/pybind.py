"""The Python extension module: references, NULL, pending exceptions, AS numbers (rules of binding.Binding and: exception, cast, format)."""
import re
from absint import *
from absint import site
import own
from own import release
from binding import *
from frontend import AnalysisError

SINGLETON = {"_Py_NoneStruct": "None", "_Py_TrueStruct": "True", "_Py_FalseStruct": "False", "_Py_NotImplementedStruct": "NotImplemented"}

def roles(prog):
	"""function -> role, from the type objects and method tables."""
	out = {}
	for u in prog.units:
		if u.group != "python": continue
		for n, g in u.globals.items():
			l = []
			walk_init(g.get("init"), prog, l)
			for s, o, f in l:
				st = prog.structs.get("PyTypeObject") if s == "_typeobject" else prog.structs.get(s)
				fld = next((x[0] for x in st["fields"] if x[1] == o), None) if st else None
				if fld: out.setdefault(f, {})[fld] = n
	return out

class PyBinding(Binding):
	def __init__(self, prog, contracts, owning, entry, role):
		super().__init__(prog, contracts, owning, entry, role)
		self.models.update(MODELS)
	def exc(self, st): return bool(st.ts.get(("exc", 0)))
	def raised(self, st): st.ts[("exc", 0)] = 1
	def typed(self, I, st, rid):
		m = st.meta.get(rid, {})
		return m.get("pytype")
	def on_deref(self, I, st, fr, ins, ptr, size, write):
		super().on_deref(I, st, fr, ins, ptr, size, write)
		m = st.meta.get(ptr[1], {})
		if m.get("anyobj") and is_const(ptr[2]) and ptr[2][1] >= 16 and fr.fn.unit.group == "python" and fr.fn.rel.startswith("src/"):
			self.report("cast", fr.fn, ins, "an object of unknown type is accessed as one of this module's types", st, key="cast")
	def before_exit(self, I, st, fr, ins, v):
		if fr.parent is not None: return
		self.count("exit states")
		f, role = self.entry, self.role
		exc = self.exc(st)
		self.leak_fds(I, st, fr, ins)
		obj = f.ret == "ptr" and f.sig[0] in ("PyObject*",) or f.ret == "ptr" and f.sig[0].endswith("Object*")
		if obj and v is not None:
			v = I.resolve(st, v)
			if v == NULL:
				if not exc and "tp_iternext" not in role:
					self.report("exception", fr.fn, ins, "returns NULL without raising an exception", st, key="none")
				self.result(I, st, fr, ins, "stop" if st.ts.get(("exc", 0)) in (None, 2) else "exc")
			else:
				if v[0] == "p" and v[1][0] == "D" and not I.is_nonnull(st, v):
					self.report("exception", fr.fn, ins, "may return NULL without raising an exception", st, key="maybe")
				if exc:
					self.report("exception", fr.fn, ins, "returns an object while an exception is pending", st, key="pending")
				if v[0] == "p" and v[1][0] == "G":
					k = SINGLETON.get(v[1][1], v[1][1])
				else:
					k = "obj"
					self.consume(I, st, fr, ins, v, "return value")
				self.result(I, st, fr, ins, k)
		elif f.ret == 32 and f.sig[0] == "int" or f.ret == 64 and f.sig[0] == "Py_hash_t":
			if v is not None and v[0] == "l":
				lo, hi = I.rng(st, v)
				t = I.truth(st, v)
				if f.ret == 64:
					if v == C(-1) and not exc: self.report("exception", fr.fn, ins, "returns -1 without raising an exception", st, key="none")
					elif exc and v != C(-1): self.report("exception", fr.fn, ins, "returns a hash while an exception is pending", st, key="pending")
				else:
					if t is not False and not exc and "tp_" not in "":
						self.report("exception", fr.fn, ins, "fails without raising an exception", st, key="none")
					if t is not True and exc:
						self.report("exception", fr.fn, ins, "succeeds while an exception is pending", st, key="pending")
					if t is not False and "tp_init" in role and hi > 0:
						self.report("exception", fr.fn, ins, "a positive result of an initialiser is not taken for a failure", st, key="positive")
					self.result(I, st, fr, ins, "exc" if t is True else "0")
		elif exc:
			self.report("exception", fr.fn, ins, "returns with an exception pending", st, key="pending")
		for r in list(st.own):
			if st.own[r] > 0:
				self.on_leak(I, st, fr, ins, r)
				del st.own[r]
		self.fields_at_exit(I, st, fr, ins)
	def describe(self, I, st, rid):
		m = st.meta.get(rid, {})
		if m.get("cls") == "py": return "Python object obtained at line %s (%s)" % (m.get("ln"), m.get("fn"))
		if m.get("anyobj"): return "Python object that belongs to the caller"
		if rid[0] == "G": return "reference to %s" % SINGLETON.get(rid[1], rid[1])
		return super().describe(I, st, rid)
	def on_load(self, I, st, fr, ins, p, size, v):
		super().on_load(I, st, fr, ins, p, size, v)
		if size == 8 and p[0] == "p" and p[1][0] == "G" and p[1][1].startswith("PyExc_") and v[0] == "p" and v[1] in st.meta:
			st.meta[v[1]] = dict(st.meta[v[1]], excname=p[1][1])
		if size == 8 and p[0] == "p" and p[1][0] == "G" and v[0] == "p" and v[1][0] == "D" and "m_free" in self.role:
			st.meta[v[1]] = dict(st.meta[v[1]], inown=True)

# ---- Python's C interface

def raising(I, st, fr, ins, name=None):
	f2 = st.copy()
	f2.note("%s:%d %s fails" % (fr.fn.rel.split("/")[-1], ins.ln, name or ins.d.get("fn")))
	I.checkers[0].raised(f2)
	return f2

def use(I, st, fr, ins, p, what, null=False):
	"""A pointer is used by the interpreter."""
	ck = I.checkers[0]
	p = I.resolve(st, p)
	if p == UNDEF:
		I.undef_use(st, fr, ins, what); return False
	if p == NULL:
		if null: return True
		ck.on_null(I, st, fr, ins, what); return False
	if p[0] == "p":
		ck.on_use(I, st, fr, ins, p[1], ins.d.get("fn"))
		if not null and p[1][0] == "D" and not I.is_nonnull(st, p):
			if st.meta.get(p[1], {}).get("opt"): ck.on_null(I, st, fr, ins, "%s, which can be absent, as %s" % (st.meta[p[1]]["opt"], what))
			elif st.meta.get(p[1], {}).get("maybe"): ck.on_null(I, st, fr, ins, what)
	return True

def target_type(fr, ins):
	"""Struct the result of this call is used as."""
	for b in fr.fn.blocks:
		for i in b:
			if i.op == "store" and tuple(i.d["a"][0]) == ("v", ins.id) and i.d["a"][1][0] == "v":
				a = fr.fn.allocas.get(i.d["a"][1][1])
				if a is not None and (a.d.get("dity") or "").endswith("*"): return a.d["dity"][:-1]
	return None

def newobj(ptrs=(), null=()):
	def f(I, fr, st, ins, args):
		for i in ptrs:
			if not use(I, st, fr, ins, args[i], "argument %d of %s" % (i + 1, ins.d.get("fn"))): return []
		for i, a in enumerate(args):
			if i not in ptrs and a == UNDEF:
				I.undef_use(st, fr, ins, "argument of %s" % ins.d.get("fn")); return []
		f2 = raising(I, st, fr, ins)
		p = I.new_heap(st, site(fr, ins), cls="py", ty=None, ln=ins.ln, fn=fr.fn.name, havoc=True)
		return [(st, p), (f2, NULL)]
	return f

def m_tp_alloc(I, fr, st, ins, args):
	f2 = raising(I, st, fr, ins, "tp_alloc")
	p = I.new_heap(st, site(fr, ins), cls="py", ty=target_type(fr, ins), zero=True, ln=ins.ln, fn=fr.fn.name)
	return [(st, p), (f2, NULL)]

def m_tp_free(I, fr, st, ins, args):
	p = args[0]
	if p[0] == "p":
		ck = I.checkers[0]
		m = st.meta.get(p[1], {})
		if m.get("param") == 0: st.own[p[1]] = 1
		ck.on_free(I, st, fr, ins, p[1])
		st.own.pop(p[1], None)
		st.rel[p[1]] = "%s:%d" % (fr.fn.rel, ins.ln)
	return [(st, None)]

def status(*ptrs, good=0, bad=-1):
	def f(I, fr, st, ins, args):
		for i in ptrs:
			if i < len(args) and not use(I, st, fr, ins, args[i], "argument %d of %s" % (i + 1, ins.d.get("fn"))): return []
		f2 = raising(I, st, fr, ins)
		return [(st, C(good)), (f2, C(bad))]
	return f

def directives(fmt):
	return re.findall(r"%[-#0 +]*(?:\d+|\*)?(?:\.(?:\d+|\*))?((?:hh|h|ll|l|j|z|t)?)([diouxXcspAUVSR%])", fmt)

def check_format(I, st, fr, ins, fmt, args, at):
	ck = I.checkers[0]
	text = const_string(fr, fmt)
	if text is None: return True
	k = 0
	for ln, c in directives(text):
		if c == "%": continue
		if k >= len(args):
			ck.report("format", fr.fn, ins, "the format %r has more directives than there are values" % text, st, key="count")
			return True
		a, t = args[k], at[k] if k < len(at) else None
		k += 1
		if c in "spAUVSR":
			if t is not None and t != "ptr":
				ck.report("format", fr.fn, ins, "%%%s of %r is given a number" % (ln + c, text), st, key="type"); continue
			if c != "p" and not use(I, st, fr, ins, a, "value for %%%s of %s" % (c, ins.d.get("fn"))): return False
		else:
			if t == "ptr":
				ck.report("format", fr.fn, ins, "%%%s of %r is given a pointer" % (ln + c, text), st, key="type"); continue
			w = 64 if ln in ("l", "ll", "j", "z", "t") else 32
			if isinstance(t, int) and t != w:
				ck.report("format", fr.fn, ins, "%%%s of %r is given a %d-bit number" % (ln + c, text, t), st, key="width")
			ck.give_asn(I, st, fr, ins, a, c in "uxXo", w, "through %%%s" % (ln + c))
	if k != len(args): ck.report("format", fr.fn, ins, "the format %r has fewer directives than there are values" % text, st, key="count")
	return True

def m_fromformat(I, fr, st, ins, args):
	if not check_format(I, st, fr, ins, args[0], args[1:], ins.d.get("at", [])[1:]): return []
	return newobj()(I, fr, st, ins, args)

def setexc(I, fr, st, ins, args):
	ck = I.checkers[0]
	n = ins.d.get("fn")
	if n == "PyErr_Format":
		if not check_format(I, st, fr, ins, args[1], args[2:], ins.d.get("at", [])[2:]): return []
	elif n == "PyErr_SetString" and not use(I, st, fr, ins, args[1], "message of PyErr_SetString"): return []
	ck.count("exceptions raised")
	if ck.exc(st): ck.report("exception", fr.fn, ins, "replaces an exception that is pending", st, key="replaced")
	ck.raised(st)
	if args and args[0][0] == "p" and st.meta.get(args[0][1], {}).get("excname") in ("PyExc_StopIteration", "PyExc_StopAsyncIteration"):
		st.ts[("exc", 0)] = 2
	return [(st, NULL if ins.ty == "ptr" else None)]

def m_occurred(I, fr, st, ins, args):
	return [(st, I.fresh_ptr(st, "PyObject", nonnull=True) if I.checkers[0].exc(st) else NULL)]
def m_clear(I, fr, st, ins, args):
	st.ts.pop(("exc", 0), None)
	return [(st, None)]

def m_incref(nullok, ret):
	def f(I, fr, st, ins, args):
		p = I.resolve(st, args[0])
		if p == NULL or p == UNDEF:
			if not use(I, st, fr, ins, p, "argument of %s" % ins.d.get("fn"), nullok): return []
			return [(st, p if ret else None)]
		if p[0] == "p":
			I.checkers[0].on_use(I, st, fr, ins, p[1], ins.d.get("fn"))
			if p[1][0] != "G" or p[1][1] not in SINGLETON: st.own[p[1]] = st.own.get(p[1], 0) + 1
			m = st.meta.get(p[1])
			if m is not None and m.get("ln") is None: st.meta[p[1]] = dict(m, rln=ins.ln, rfn=fr.fn.name)
		return [(st, p if ret else None)]
	return f

def m_decref(nullok):
	def f(I, fr, st, ins, args):
		p = I.resolve(st, args[0])
		if p == NULL or p == UNDEF:
			if not use(I, st, fr, ins, p, "argument of %s" % ins.d.get("fn"), nullok): return []
			return [(st, None)]
		if p[0] == "p":
			if not nullok and not use(I, st, fr, ins, p, "argument of %s" % ins.d.get("fn")): return []
			release(I, fr, st, ins, p, ins.d.get("fn"))
		return [(st, None)]
	return f

def borrowed(I, st, **kw):
	return I.fresh_ptr(st, "PyObject", nonnull=True, anyobj=True, **kw)

INTS = {"b": (1, 0, 255), "B": (1, 0, 255), "h": (2, -1 << 15, (1 << 15) - 1), "H": (2, 0, 65535), "i": (4, -1 << 31, (1 << 31) - 1), "I": (4, 0, (1 << 32) - 1),
	"l": (8, -1 << 63, (1 << 63) - 1), "k": (8, 0, (1 << 64) - 1), "L": (8, -1 << 63, (1 << 63) - 1), "K": (8, 0, (1 << 64) - 1), "n": (8, -1 << 63, (1 << 63) - 1), "p": (4, 0, 1)}

def m_parse(first):
	def f(I, fr, st, ins, args):
		ck = I.checkers[0]
		fmt = const_string(fr, args[first - 1] if first == 2 else args[2])
		if fmt is None: raise AnalysisError("%s: format of %s" % (fr.fn.where(ins), ins.d.get("fn")))
		ck.count("argument formats")
		f2 = raising(I, st, fr, ins)
		outs = [(st, C(1))]
		rest = list(args[first:])
		body = fmt.split(":")[0].split(";")[0]
		items = re.findall(r"O!|O&|[szy][#*]?|es#?|et#?|[UOSYwCcDfd]|[bBhHiIlkLKnp]|[|$]", body)
		opt = False
		nargs = 0
		for it in items:
			if it in "|$": opt = True; continue
			need = 2 if it in ("O!", "O&") or it[0] in "sz" and it.endswith("#") else 1
			if len(rest) < need:
				ck.report("format", fr.fn, ins, "the format %r asks for more variables than are given" % fmt, st, key="count")
				return []
			a = rest[:need]; rest = rest[need:]
			p = a[-1] if it != "s#" else a[0]
			nargs += 1
			new = []
			for s, v in outs:
				if p[0] != "p": raise AnalysisError("%s: variable of %s" % (fr.fn.where(ins), fmt))
				size = INTS[it][0] if it in INTS else 8
				have = fr.fn.allocas.get(p[1][2]) if p[1][0] == "L" and len(p[1]) > 2 else None
				m = s.meta.get(p[1], {})
				sz = m.get("size")
				if sz is not None and is_const(sz) and p[1][0] == "L" and is_const(p[2]) and sz[1] - p[2][1] != size:
					ck.report("format", fr.fn, ins, "%r stores %d bytes into a variable of %d" % (it, size, sz[1] - p[2][1]), s, key="size")
				if it in INTS:
					_, lo, hi = INTS[it]
					w = I.fresh(s, lo, hi)
					if opt and it != "p":
						pass
					sid = w[2][0][0]
					ck.conv.pop(sid, None)
					if it in "bBhHi": ck.conv[sid] = "is read with %r and cannot be larger than %d" % (it, hi)
					elif it in "IkK": ck.conv[sid] = "is read with %r, which does not notice numbers that do not fit" % it
					old = I.read(s, p, size, size * 8) if opt else None
					I.write(s, p, size, w)
					new.append((s, v))
					if opt:
						# not given: keeps its default
						s3 = s.copy(); I.write(s3, p, size, old) if old is not None else None
						if it in "p" or it == "i" and not is_const(old or NULL): new.append((s3, v))
				else:
					if opt:
						new.append((s.copy(), v))
					if it[0] == "z": w = None
					elif it[0] in "sy": w = I.fresh_ptr(s, "char", nonnull=True)
					elif it == "O!":
						tn = a[0][1][1] if a[0][0] == "p" and a[0][1][0] == "G" else None
						w = I.fresh_ptr(s, {"PyList_Type": "PyObject"}.get(tn, (tn or "Py").replace("Type", "Object")), nonnull=True, pytype=tn, callers=True)
					else: w = borrowed(I, s, callers=True)
					if w is None:
						s3 = s.copy(); I.write(s3, p, 8, NULL); new.append((s3, v))
						w = I.fresh_ptr(s, "char", nonnull=True)
					for c in I.checkers: c.on_store(I, s, fr, ins, p, 8, w)
					I.write(s, p, 8, w)
					new.append((s, v))
			outs = new
		if rest: ck.report("format", fr.fn, ins, "the format %r asks for fewer variables than are given" % fmt, st, key="count")
		if first > 2:
			kw = keywords(I, st, fr, args[3])
			if kw is not None and kw != nargs: ck.report("format", fr.fn, ins, "the format %r describes %d arguments, but %d are named" % (fmt, nargs, kw), st, key="keywords")
		return outs + [(f2, C(0))]
	return f

def keywords(I, st, fr, p):
	"""Number of names in a keyword list."""
	if p[0] != "p" or not is_const(p[2]): return None
	n = 0
	while n < 64:
		v = st.mem.get((p[1], p[2][1] + 8 * n, 8))
		if v is None: return None
		v = I.resolve(st, v)
		if v == NULL: return n
		n += 1
	return None

def m_aslong(I, fr, st, ins, args):
	if not use(I, st, fr, ins, args[0], "argument of %s" % ins.d.get("fn")): return []
	f2 = raising(I, st, fr, ins)
	u = "Unsigned" in ins.d["fn"]
	return [(st, I.fresh(st, 0 if u else -(1 << 63), (1 << 64) - 1 if u else (1 << 63) - 1)), (f2, C(-1))]

def m_fromlong(unsigned, bits):
	def f(I, fr, st, ins, args):
		I.checkers[0].give_asn(I, st, fr, ins, args[0], unsigned, bits, "through %s" % ins.d["fn"])
		if args[0] == UNDEF:
			I.undef_use(st, fr, ins, "argument of %s" % ins.d["fn"]); return []
		return newobj()(I, fr, st, ins, [])
	return f

def m_asutf8(I, fr, st, ins, args):
	if not use(I, st, fr, ins, args[0], "argument of %s" % ins.d.get("fn")): return []
	f2 = raising(I, st, fr, ins)
	return [(st, I.fresh_ptr(st, "char", nonnull=True)), (f2, NULL)]

def m_asfd(I, fr, st, ins, args):
	if not use(I, st, fr, ins, args[0], "argument of %s" % ins.d.get("fn")): return []
	f2 = raising(I, st, fr, ins)
	v = I.fresh(st, 0, 1 << 20)
	I.checkers[0].foreign.add(v[2][0][0])
	return [(st, v), (f2, C(-1))]

def m_isinstance(I, fr, st, ins, args):
	# classes can claim to be another one: the answer says nothing about the layout of the object
	f2 = raising(I, st, fr, ins)
	return [(st, I.fresh(st, 0, 1)), (f2, C(-1))]

def m_typecheck(I, fr, st, ins, args):
	p = I.resolve(st, args[0])
	if not use(I, st, fr, ins, p, "argument of %s" % ins.d.get("fn")): return []
	f2 = st.copy()
	if p[0] == "p":
		tn = args[1][1][1] if args[1][0] == "p" and args[1][1][0] == "G" else None
		m = dict(st.meta.get(p[1], {})); m.pop("anyobj", None); m["pytype"] = tn; m["ty"] = (tn or "").replace("Type", "Object") or None
		st.meta[p[1]] = m
	return [(st, C(1)), (f2, C(0))]

def m_getitem(I, fr, st, ins, args):
	if not use(I, st, fr, ins, args[0], "argument of %s" % ins.d.get("fn")): return []
	return [(st, borrowed(I, st))]

def m_addobject(I, fr, st, ins, args):
	for i in (0, 2):
		if not use(I, st, fr, ins, args[i], "argument %d of %s" % (i + 1, ins.d["fn"])): return []
	f2 = raising(I, st, fr, ins)
	p = args[2]
	if p[0] == "p":
		r = p[1]
		if st.own.get(r, 0) <= 0: I.checkers[0].report("over-release", fr.fn, ins, "PyModule_AddObject takes over a reference that is not owned here", st, key="steal")
		else:
			st.own[r] -= 1
			if not st.own[r]: del st.own[r]
	return [(st, C(0)), (f2, C(-1))]

def m_bool(I, fr, st, ins, args):
	v = args[0]
	if v == UNDEF: I.undef_use(st, fr, ins, "argument of PyBool_FromLong"); return []
	t = I.truth(st, v)
	out = []
	for k, name in ((True, "_Py_TrueStruct"), (False, "_Py_FalseStruct")):
		if t is not None and t is not k: continue
		s = st if t is not None else st.copy()
		if t is None and I.assume(s, v, k) is False: continue
		out.append((s, ("p", ("G", name), C(0))))
	return out

MODELS = dict(LIBC)
MODELS.update({
	"->tp_alloc": m_tp_alloc, "->tp_free": m_tp_free, "PyType_GenericAlloc": m_tp_alloc, "PyObject_Free": m_tp_free,
	"PyUnicode_FromString": newobj((0,)), "PyUnicode_FromFormat": m_fromformat, "PyUnicode_FromStringAndSize": newobj(),
	"PyBytes_FromStringAndSize": newobj(), "PyBytes_FromString": newobj((0,)), "PyList_New": newobj(), "PyTuple_New": newobj(), "PyDict_New": newobj(),
	"PyLong_FromLong": m_fromlong(False, 64), "PyLong_FromLongLong": m_fromlong(False, 64), "PyLong_FromUnsignedLong": m_fromlong(True, 64), "PyLong_FromUnsignedLongLong": m_fromlong(True, 64),
	"PyLong_FromSsize_t": m_fromlong(False, 64), "PyLong_FromSize_t": m_fromlong(True, 64), "PyBool_FromLong": m_bool,
	"PyModule_Create2": newobj(), "PyErr_NewException": newobj(),
	"PyErr_SetString": setexc, "PyErr_SetNone": setexc, "PyErr_SetFromErrno": setexc, "PyErr_Format": setexc, "PyErr_NoMemory": setexc, "PyErr_SetObject": setexc,
	"PyErr_SetFromErrnoWithFilename": setexc, "PyErr_BadArgument": setexc,
	"PyErr_Occurred": m_occurred, "PyErr_Clear": m_clear,
	"Py_INCREF": m_incref(False, False), "Py_XINCREF": m_incref(True, False), "Py_NewRef": m_incref(False, True), "_Py_NewRef": m_incref(False, True), "Py_XNewRef": m_incref(True, True), "_Py_XNewRef": m_incref(True, True),
	"Py_IncRef": m_incref(True, False), "Py_DecRef": m_decref(True), "Py_DECREF": m_decref(False), "Py_XDECREF": m_decref(True),
	"PyArg_ParseTuple": m_parse(2), "PyArg_ParseTupleAndKeywords": m_parse(4),
	"PyLong_AsLong": m_aslong, "PyLong_AsLongLong": m_aslong, "PyLong_AsUnsignedLong": m_aslong, "PyLong_AsUnsignedLongLong": m_aslong,
	"PyUnicode_AsUTF8": m_asutf8, "PyUnicode_AsUTF8AndSize": m_asutf8, "PyObject_AsFileDescriptor": m_asfd,
	"PyObject_IsInstance": m_isinstance, "PyObject_TypeCheck": m_typecheck, "Py_IS_TYPE": m_typecheck,
	"PyType_HasFeature": pure(0, 1), "PyObject_Hash": status(0, good=0),
	"PyList_GetItem": m_getitem, "PyList_GET_ITEM": m_getitem, "PyTuple_GetItem": m_getitem, "PyList_Size": pure(0, 1 << 60), "PyList_Append": status(0, 1), "PyList_SetItem": status(0),
	"PyModule_AddObject": m_addobject, "PyModule_AddObjectRef": status(0, 2), "PyModule_AddType": status(0, 1), "PyModule_AddIntConstant": status(0), "PyModule_AddStringConstant": status(0, 2),
	"PyType_Ready": status(),
})

def owning_fields(prog):
	"""Fields of the module's objects that their destructors give up."""
	o = {}
	for f in prog.repo_fns():
		if f.unit.group != "python" or not f.name.endswith("_dealloc"): continue
		for c in f.calls():
			n = c.d.get("fn")
			if n and c.d["a"] and (n in ("free", "fclose") or own.UNREF.match(n) or re.match(r"_?Py_X?DECREF$|Py_DecRef$", n)):
				g = own.trace_field(f, c.d["a"][0])
				if g: o[g] = (f.name, c.ln, n)
	o = own.field_names(prog, o)
	for k in wrapped_fields(prog):
		o.setdefault(k, ("", 0, ""))
	return o

def wrapped_fields(prog):
	"""(struct, field): the pointers of the module's objects to the library's, which must be released by the destructor."""
	out = set()
	for n, s in prog.structs.items():
		if n.endswith("Object") and not n.startswith("Py"):
			for fn, o, sz, t in s["fields"]:
				if own.struct_ptr(t) or t == "char*": out.add((n, fn))
	return out

def analyse(prog, contracts, owning, f, role, budget=250000):
	ck = PyBinding(prog, contracts, owning, f, role)
	I = Interp(prog, [], budget=budget)
	I.checkers = [ck]
	I.models = dict(BASE_MODELS); I.models.update(ck.models)
	I.field_hook = ck.field_hook
	I.set_hook = ck.set_hook
	I.field_range = own.list_ranges(prog)
	opt = []
	isnew, init, dealloc = "tp_new" in role, "tp_init" in role, "tp_dealloc" in role
	types = getattr(prog, "_pyroles", {})
	def setup(I2, st, args):
		for i, t in enumerate(f.sig[1:]):
			if t == "PyObject*" and args[i][0] == "p":
				st.meta[args[i][1]] = dict(st.meta[args[i][1]], anyobj=True)
		if init or dealloc or role.get("bare"):
			t = f.sig[1][:-1]
			s = prog.structs.get(t)
			for n, o, sz, ty in s["fields"] if s else ():
				if sz == 8 and ty.endswith("*"):
					if init: I2.write(st, ("p", args[0][1], C(o)), 8, NULL)
					else:
						p = I2.fresh_ptr(st, ty[:-1], keep=True, opt="%s.%s" % (t, n), inown=(t, n) in owning, src=(args[0][1], n, t))
						I2.write(st, ("p", args[0][1], C(o)), 8, p)
	if "set" in role: opt.append(1)
	if "tp_init" in role or "tp_new" in role: opt.append(2)
	if opt: ck.maybe = opt
	def setup2(I2, st, args):
		setup(I2, st, args)
		for i in opt:
			if args[i][0] == "p": st.meta[args[i][1]] = dict(st.meta[args[i][1]], maybe=True)
	I.entry(f, setup2, optional=tuple(opt))
	ck.finish()
	return ck, I
