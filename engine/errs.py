"""Failures are never reported as success: a failure of an allocation, of I/O, of OpenSSL or of an inner call that is
seen on a path must make the function fail (non-zero, or NULL for functions that return a pointer) on that path."""
import re
from absint import *
import own
from frontend import AnalysisError

# questions: their answer is not a status
ASK = re.compile(r"_(cmp|empty|contains\w*|is_\w+|has_flag\w*|overlaps|matches_\w+|match_\w+|code_is_valid|version_supported|family|address_family|prefix|size|get_\w+|str|get|count_nodes|list_size|list_dump|dump|get_bit|all_\w+|bit_length|valid_prefix|properties_cmp|created_at|count_as|to_flag|common_bits|list_find|find)$")

def signed_result(fn, call):
	"""Whether the code looks at the sign of what this call returns: then only a negative result is a failure."""
	cells = {i.d["a"][1][1] for b in fn.blocks for i in b if i.op == "store" and tuple(i.d["a"][0]) == ("v", call.id) and i.d["a"][1][0] == "v"}
	vals = {call.id} | {i.id for b in fn.blocks for i in b if i.op == "load" and i.d["a"][0][0] == "v" and i.d["a"][0][1] in cells}
	return any(i.op == "icmp" and i.d["pred"][0] == "s" and any(a[0] == "v" and a[1] in vals for a in i.d["a"]) for b in fn.blocks for i in b)

class Errors(Checker):
	def __init__(self, prog, K, entry):
		super().__init__()
		self.prog, self.K, self.entry = prog, K, entry
	def fail(self, I, st, fr, ins, name, v=None):
		if ("fail", 0) not in st.ts:
			sid = v[2][0][0] if v is not None and v[0] == "l" and len(v[2]) == 1 else None
			st.ts[("fail", 0)] = (name, fr.fn.name, fr.fn.where(ins), sid)
	def after_model(self, I, st, fr, ins, name, args, rc, v):
		f = self.K.public.get(name)
		if name == "loc_network_get_country_code" and v is not None and v[0] == "p":
			# what a network has was accepted before
			st.meta[v[1]] = dict(st.meta.get(v[1], {}), cc=True)
		if f is None or ASK.search(name) or f.ret in ("void",): return
		if f.ret == "ptr":
			if rc == "n" and (name in own.OWNED_RET or name.endswith(("_exclude", "_exclude_list"))) and not own.LIST_NONNULL.match(name): self.fail(I, st, fr, ins, name)
			return
		if name == "loc_network_set_country_code" and args[1][0] == "p" and st.meta.get(args[1][1], {}).get("cc"): return
		if rc in ("nz", "-") or rc == "+" and not name.endswith(("_add", "_append_string")) or type(rc) is int and rc != 0: self.fail(I, st, fr, ins, name, v)
	def on_unknown(self, I, st, fr, ins, name, v):
		"""Recursive calls and callbacks may fail as well."""
		body = self.prog.lookup(fr.fn.unit, name)
		if ins.ty not in (32, "i32") or name != "<indirect>" and (body is None or ASK.search(name)): return [(st, v)]
		f2 = st.copy()
		f2.note("%s:%d %s fails" % (fr.fn.rel.split("/")[-1], ins.ln, name))
		w = I.fresh(f2, -(1 << 31), -1)
		self.fail(I, f2, fr, ins, name)
		out = [(st, C(0)), (f2, w)]
		f3 = st.copy()
		if name != "<indirect>" and not signed_result(fr.fn, ins): self.fail(I, f3, fr, ins, name)
		out.append((f3, I.fresh(f3, 1, (1 << 31) - 1)))
		return out
	def on_store(self, I, st, fr, ins, ptr, size, val):
		if ptr[0] == "p" and ptr[1] == ("G", "errno"):
			if val == C(0): st.ts.pop(("errno", fr.id), None)
			else: st.ts[("errno", fr.id)] = 1
	def on_inner_ret(self, I, st, fr, ins, v):
		e = st.ts.pop(("errno", fr.id), None)
		if v is None or ASK.search(fr.fn.name): return
		if v == NULL and e: self.fail(I, st, fr.parent, fr.call, fr.fn.name)
		elif v[0] == "l" and fr.fn.sig and fr.fn.sig[0] == "int" and (e and I.truth(st, v) is True or I.rng(st, v)[1] < 0): self.fail(I, st, fr.parent, fr.call, fr.fn.name, v)
	def on_ret(self, I, st, fr, ins, v):
		w = st.ts.get(("fail", 0))
		self.count("returns checked")
		if w is None: return
		self.count("failing returns checked")
		if v is None: return
		if self.entry.ret == "ptr": bad = v != NULL and not (v[0] == "p" and v[1] in st.null)
		else: bad = v[0] != "l" or I.truth(st, v) is not True
		if bad and w[3] is not None:
			# one particular result that is not a failure here
			i = st.info.get(w[3])
			if i and i[0] == i[1]: return
			if self.entry.ret == 64 and v[0] == "l" and v[1] == 0 and v[2] == ((w[3], 1),): return   # the caller is told how much it was
		if bad:
			self.report("swallowed", fr.fn, ins, "returns as if nothing had happened after %s failed in %s (%s)" % (w[0], w[1], w[2]), st, key="%s in %s" % (w[0], w[1]))

def forks(ck, base, good, bad):
	"""External call: one successor with a result in the range `good`, one with a failing result."""
	def m(I, fr, st, ins, args):
		out = []
		f2 = st.copy()
		r = base(I, fr, st, ins, args) if base else None
		name = ins.d.get("fn")
		if r is None:
			r = [(st, I.fresh(st, *good))]
		for s, v in r: out.append((s, v))
		f2.note("%s:%d %s fails" % (fr.fn.rel.split("/")[-1], ins.ln, name))
		ck.fail(I, f2, fr, ins, name)
		out.append((f2, I.fresh(f2, *bad) if bad is not None else NULL))
		return out
	return m

def mark(ck, base):
	"""Existing models that fork: the NULL (or MAP_FAILED, or -1) successor is the failing one."""
	def m(I, fr, st, ins, args):
		r = base(I, fr, st, ins, args)
		if r is NotImplemented: return r
		for s, v in r:
			if v == NULL or v is not None and v[0] == "p" and v[1] == ("S", -1) or v == C(-1):
				if not (len(r) == 1 and v is not None and v[0] == "l"): ck.fail(I, s, fr, ins, ins.d.get("fn"))
		return r
	return m

def m_fwrite(ck):
	def m(I, fr, st, ins, args):
		f2 = st.copy()
		n = args[2]
		f2.note("%s:%d fwrite fails" % (fr.fn.rel.split("/")[-1], ins.ln))
		v = I.fresh(f2, 0, 1 << 40)
		ck.fail(I, f2, fr, ins, "fwrite", v)
		if n[0] == "l": I.add_le(f2, lin_add(lin_add(v, n, -1), C(1)))
		return [(st, n if n[0] == "l" else I.fresh(st, 0, 1 << 40)), (f2, v)]
	return m

def models(ck):
	E = own.EXT_MODELS
	m = {}
	for n in ("malloc", "calloc", "realloc", "reallocarray", "strdup", "strndup", "asprintf", "vasprintf"): m[n] = mark(ck, BASE_MODELS[n])
	for n in ("fdopen", "fopen", "EVP_MD_CTX_new", "mmap", "dup"): m[n] = mark(ck, E[n])
	for n in ("fseek", "fflush", "madvise"): m[n] = forks(ck, None, (0, 0), (-1, -1))
	m["lseek"] = forks(ck, None, (0, 1 << 62), (-1, -1))
	m["fwrite"] = m_fwrite(ck)
	for n in ("EVP_DigestVerifyInit", "EVP_DigestSignInit", "EVP_DigestUpdate", "EVP_DigestVerifyUpdate", "EVP_DigestSignUpdate", "EVP_DigestSignFinal", "EVP_DigestSign"): m[n] = forks(ck, None, (1, 1), (-2, 0))
	m["PEM_read_PUBKEY"] = mark(ck, E["PEM_read_PUBKEY"]); m["PEM_read_PrivateKey"] = mark(ck, E["PEM_read_PrivateKey"])
	m["ferror"] = forks(ck, None, (0, 0), (1, 1))
	m["dn_expand"] = forks(ck, None, (0, 1 << 16), (-1, -1)); m["res_query"] = m["res_nquery"] = m["__res_query"] = forks(ck, None, (0, 1 << 16), (-1, -1)); m["__dn_expand"] = m["dn_expand"]
	return m

def errors(prog, contracts, f, budget=250000):
	ck = Errors(prog, contracts, f)
	I = Interp(prog, [], budget=budget)
	I.checkers = [ck]
	I.models = dict(BASE_MODELS); I.models.update(contracts.all_models())
	I.models.update(models(ck))
	for n in ("loc_stringpool_write", "loc_stringpool_get_size"): I.models.pop(n, None)
	I.field_range = own.list_ranges(prog)
	def setup(I2, st, args):
		for i in contracts.outs(f):
			init = I2.fresh_ptr(st, own.struct_ptr(f.sig[i + 1], 2), keep=True, init=True)
			I2.keyregs.add(args[i][1])
			I2.write(st, args[i], 8, init)
	I.entry(f, setup, optional=(0,) if own.UNREF.match(f.name) else ())
	return ck, I
