"""Where the sections of a database are: the offsets and lengths the header states are those of what was written.
Checker of the function that writes a database, with the file position and the length of the current section as cells of its own."""
import re
from absint import *
import own
from sig import const_of
from frontend import AnalysisError

POS, LEN, START, WANT = ("Z", "position"), ("Z", "length"), ("Z", "start"), ("Z", "want")
IDX, MADE, NETS = ("Z", "number"), ("Z", "nodes"), ("Z", "networks")

class Layout(Checker):
	def __init__(self, prog, entry):
		super().__init__()
		self.prog, self.entry = prog, entry
		self.H = prog.structs["loc_database_header_v1"]; self.M = prog.structs["loc_database_magic"]["size"]
		self.secs = {}
		self.fields = {o: (n, z) for n, o, z, t in self.H["fields"]}
		names = [n for n, o, z, t in self.H["fields"]]
		self.sections = [n[:-7] for n in names if n.endswith("_offset") and n[:-7] + "_length" in names]
		if len(self.sections) < 3: raise AnalysisError("the header has no sections")
		self.sorted_for = {}
	def g(self, st, k, d=None): return st.ts.get(("lay", k), d)
	def s(self, st, k, v):
		if v is None: st.ts.pop(("lay", k), None)
		else: st.ts[("lay", k)] = v
	def cell(self, st, c, v=None):
		if v is None: return st.mem.get((c, 0, 8))
		st.meta[c] = {"kind": "Z", "size": C(8)}
		st.mem[(c, 0, 8)] = v
	def is_header(self, st, ptr):
		return ptr[0] == "p" and is_const(ptr[2]) and "loc_database_header_v1" in (st.meta.get(ptr[1], {}).get("ty") or "")
	def encoded(self, I, fr, st, ins, v, w):
		"""v as it would be stored in a field of w bits in network byte order."""
		t = I.cast(st, "trunc", v, 64, w) if w < 64 else v
		class D: pass
		d = D(); d.ty = w; d.d = {}
		return m_bswap(I, fr, st, d, [t])[0][1]
	def states(self, I, fr, st, ins, val, v, w, rec=None):
		"""Whether val is v in network byte order."""
		if val == self.encoded(I, fr, st, ins, v, w): return True
		def arg(x, *ops):
			if x[0] == "l" and x[1] == 0 and len(x[2]) == 1 and x[2][0][1] == 1 and x[2][0][0][0] == "d":
				d = I.ddefs[x[2][0][0][1]][0]
				if d[0] in ops: return d[1]
			return None
		a = arg(val, "bswap")
		if a is None and is_const(val) and is_const(v): return False
		for k in (a, arg(a, "tr", "wrap") if a is not None else None):
			if k is not None and v is not None and k[0] == "l" and v[0] == "l":
				d = lin_add(k, v, -1)
				if I.le0(st, d, 2) and I.le0(st, lin_mul(d, -1), 2): return True
				if rec and k[1] == 0 and len(k[2]) == 1 and k[2][0][1] == rec: return True   # so many records; that they were all written is beyond this analysis
		return False
	# the network tree: children are numbered in the order in which their nodes are made, networks likewise
	def tree(self, I, st, fr, ins, ptr, size, val):
		f = I.field_of(st, ptr, size)
		if f is None: return
		for c, d in ((IDX, C(0)), (MADE, C(0)), (NETS, C(0))):
			if self.cell(st, c) is None: self.cell(st, c, d)
		if f[:2] in (("node", "index_zero"), ("node", "index_one")) and val != C(0):
			self.count("node numbers checked")
			d = lin_add(lin_add(val, self.cell(st, IDX), -1), C(-1)) if val[0] == "l" else None
			if d is None or not (I.le0(st, d) and I.ge0(st, d)): self.report("index", fr.fn, ins, "the number of a child node is not the one that follows the last one", st, key=f[1])
			if val[0] == "l": self.cell(st, IDX, val)
		elif f[:2] == ("node", "node"): self.cell(st, MADE, lin_add(self.cell(st, MADE), C(1)))
		elif f[:2] == ("network", "network"): self.cell(st, NETS, lin_add(self.cell(st, NETS), C(1)))
	def on_arith(self, I, st, fr, ins, op, a, b):
		# fewer than 2^31 records are written
		if op == "add" and ins.ty == 32 and b == C(1) and a[0] == "l" and fr.fn.rel == self.entry.rel: I.add_le(st, lin_add(a, C(-((1 << 31) - 2))))
	def node_written(self, I, st, fr, ins, p):
		self.count("nodes checked")
		m, x, n = self.cell(st, MADE), self.cell(st, IDX), self.cell(st, NETS)
		if None in (m, x, n): self.report("index", fr.fn, ins, "a node is written before any was made", st, key="node"); return
		d = lin_add(lin_add(m, x, -1), C(-1))
		if not (I.le0(st, d) and I.ge0(st, d)): self.report("index", fr.fn, ins, "a node is written when not as many nodes were made as were numbered", st, key="made")
		o, z = [(o, z) for k, o, z, t in self.prog.structs["loc_database_network_node_v1"]["fields"] if k == "network"][0]
		v = I.read(st, ("p", p[1], lin_add(p[2], C(o))), z, 8 * z)
		if v[0] == "l" and is_const(v) and v[1] in (-1, 0xffffffff): return
		if v[0] != "l" or not self.states(I, fr, st, ins, v, lin_add(n, C(-1)), 8 * z): self.report("index", fr.fn, ins, "the number of the network of a node is not that of the last network that was queued", st, key="network")
	def on_store(self, I, st, fr, ins, ptr, size, val):
		if self.g(st, "section") == "network_tree" and not self.g(st, "broken"): self.tree(I, st, fr, ins, ptr, size, val)
		if not self.is_header(st, ptr) or ptr[2][1] not in self.fields or self.g(st, "broken"): return
		n, z = self.fields[ptr[2][1]]
		if n.endswith("_offset") and n[:-7] in self.sections:
			p = self.cell(st, POS)
			self.count("section offsets checked")
			if p is None: self.report("offset", fr.fn, ins, "%s is set at an unknown position of the file" % n, st, key=n)
			elif not self.states(I, fr, st, ins, val, p, 8 * z): self.report("offset", fr.fn, ins, "%s is not the position (as a big-endian number) at which the section is written" % n, st, key=n)
			self.s(st, "section", n[:-7])
			self.s(st, ("type", n[:-7]), None)
			self.cell(st, LEN, C(0))
			st.mem.pop((WANT, 0, 8), None)
			self.cell(st, START, p if p is not None else I.fresh(st, 0, 1 << 62))
		elif n.endswith("_length") and n[:-7] in self.sections:
			self.count("section lengths checked")
			self.complete(I, st, fr, ins, n[:-7])
			if self.g(st, "section") != n[:-7]: self.report("length", fr.fn, ins, "%s is set while another section is being written" % n, st, key=n)
			elif not self.states(I, fr, st, ins, val, self.cell(st, LEN), 8 * z, self.prog.structs.get(self.g(st, ("type", n[:-7])), {}).get("size")) and not self.states(I, fr, st, ins, val, lin_add(self.cell(st, POS), self.cell(st, START), -1), 8 * z): self.report("length", fr.fn, ins, "%s is not the number of bytes (as a big-endian number) written for the section" % n, st, key=n)
			self.s(st, "done", self.g(st, "done", frozenset()) | {n[:-7]})
			self.s(st, "section", None)
	def adders(self):
		"""Functions that add to a string pool."""
		if not hasattr(self, "_adders"):
			self._adders = {"loc_stringpool_add"}
			while True:
				n = len(self._adders)
				for f in self.prog.repo_fns():
					if any(i.op in ("call", "invoke") and i.d.get("fn") in self._adders for b in f.blocks for i in b): self._adders.add(f.name)
				if len(self._adders) == n: break
		return self._adders
	def on_call(self, I, st, fr, ins, name, args):
		sec = self.g(st, "section")
		if name == "loc_stringpool_write": self.s(st, "pooled", 1); self.count("string pools written")
		elif name in self.adders() and self.g(st, "pooled") and not self.g(st, "broken"): self.report("pool", fr.fn, ins, "%s may add a string to the string pool after it has been written" % name, st, key=name)
		m = re.match(r"loc_(as|country)_list_(size|get|sort)$", name)
		if m and sec in self.LISTS and self.cell(st, WANT) is None and args[0][0] == "p":
			# what the section must hold in the end
			o, z = [(o, z) for n, o, z, t in self.prog.structs["loc_%s_list" % m.group(1)]["fields"] if n == "size"][0]
			n = I.read(st, ("p", args[0][1], C(o)), z, 64)
			if n[0] == "l": self.cell(st, WANT, lin_mul(n, self.prog.structs[self.LISTS[sec]]["size"]))
		if name.endswith("_list_sort") and args and args[0][0] == "p": self.s(st, ("sorted", args[0][1]), 1)
		elif name.endswith("_list_append") and args and args[0][0] == "p": self.s(st, ("sorted", args[0][1]), None)
		elif name.endswith("_to_database_v1"):
			# remembers which record the buffer holds
			d = args[-1]
			if d[0] == "p": self.s(st, ("rec", d[1]), name)
			src = args[0]
			m = st.meta.get(src[1], {}) if src[0] == "p" else {}
			self.s(st, ("from", d[1] if d[0] == "p" else None), (m.get("inown") or m.get("coll") or m.get("src")) and 1)
		elif name.endswith("_list_get") and args and args[0][0] == "p":
			self.s(st, "list", args[0][1])
			sec = self.g(st, "section")
			if sec is not None and not self.g(st, "broken"):
				self.s(st, ("list", sec), args[0][1])
				# the element fetched is the next one
				z = self.prog.structs.get(self.LISTS.get(sec), {}).get("size")
				l = self.cell(st, LEN)
				if z and l is not None and args[1][0] == "l":
					self.count("elements checked")
					d = lin_add(lin_mul(args[1], z), l, -1)
					if not (I.le0(st, d, 2) and I.ge0(st, d)): self.report("skipped", fr.fn, ins, "the element written to %s may not be the one that follows the last one written" % sec, st, key=sec)
	LISTS = {"as": "loc_database_as_v1", "countries": "loc_database_country_v1"}
	def complete(self, I, st, fr, ins, sec):
		"""A section that holds the elements of a list holds all of them."""
		if sec not in self.LISTS: return
		self.count("lists checked")
		w, l = self.cell(st, WANT), self.cell(st, LEN)
		if w is not None and l is not None and I.le0(st, lin_add(w, l, -1), 3): return
		self.report("skipped", fr.fn, ins, "the section %s may be shorter than the list it is written from" % sec, st, key=sec + " end")
	def rectype(self, st, p):
		if p[0] != "p": return None
		t = (st.meta.get(p[1], {}).get("ty") or "").replace("const ", "").replace("struct ", "").strip()
		return t if t.startswith("loc_database_") and t.endswith("_v1") else "bytes"
	def m_fwrite(self, I, fr, st, ins, args):
		f2 = st.copy()
		self.s(f2, "broken", 1)
		self.count("writes checked")
		t = self.rectype(st, args[0])
		sec = self.g(st, "section")
		if sec is not None and not self.g(st, "broken"):
			old = self.g(st, ("type", sec))
			if old not in (None, t): self.report("mixed", fr.fn, ins, "the section %s holds %s and %s" % (sec, old, t), st, key=sec)
			self.s(st, ("type", sec), t)
			self.secs.setdefault(sec, set()).add(t)
			if t in ("loc_database_as_v1", "loc_database_country_v1") and not self.g(st, ("sorted", self.g(st, "list"))):
				self.report("unsorted", fr.fn, ins, "records of %s are written although the list they come from was not sorted before" % sec, st, key=sec)
			if t == "loc_database_network_node_v1": self.node_written(I, st, fr, ins, args[0])
		n = lin_mul(args[2], args[1][1]) if is_const(args[1]) and args[2][0] == "l" else None
		if t == "loc_database_header_v1":
			if self.cell(st, POS) != C(self.M): self.report("offset", fr.fn, ins, "the header is not written behind the magic", st, key="header")
			miss = [x for x in self.sections if x not in self.g(st, "done", ())]
			if miss: self.report("length", fr.fn, ins, "the header is written without %s" % ", ".join(miss), st, key="header")
			self.s(st, "header", 1)
		for c in (POS, LEN):
			v = self.cell(st, c)
			if v is not None and n is not None: self.cell(st, c, I.fit(st, lin_add(v, n), 64, {}))
			elif v is not None: self.cell(st, c, I.fresh(st, 0, 1 << 62))
		v = I.fresh(f2, 0, 1 << 40)
		if args[2][0] == "l": I.add_le(f2, lin_add(lin_add(v, args[2], -1), C(1)))
		return [(st, args[2]), (f2, v)]
	def m_fseek(self, I, fr, st, ins, args):
		f2 = st.copy()
		self.s(f2, "broken", 1)
		o, w = args[1], const_of(I, st, args[2])
		p = self.cell(st, POS)
		if w == 0 and o[0] == "l": self.cell(st, POS, o)
		elif w == 1 and p is not None and o[0] == "l": self.cell(st, POS, I.fit(st, lin_add(p, o), 64, {}))
		else: self.cell(st, POS, I.fresh(st, 0, 1 << 62))
		return [(st, C(0)), (f2, C(-1))]
	def m_rewind(self, I, fr, st, ins, args):
		self.cell(st, POS, C(0))
		return [(st, None)]
	def on_ret(self, I, st, fr, ins, v):
		self.count("returns checked")
		if self.g(st, "broken") or v is None or v[0] == "l" and I.truth(st, v) is True: return
		self.count("successful returns checked")
		if not self.g(st, "header"): self.report("length", fr.fn, ins, "reports success without having written the header", st, key="header")

def queues(prog, rel):
	"""Queues of a source are first in, first out: [(function, instruction, message)] and the number of accesses."""
	def member(v, g):
		i = g.instrs.get(v[1]) if v[0] == "v" else None
		x = i.d["gep"] if i is not None and i.op == "getelementptr" else v if v[0] == "gep" else None
		if x is None or not x[5]: return None
		s = x[5][-1][0].replace("struct.", "")
		fs = prog.structs.get(s, {}).get("fields") or prog.structs.get(s.split(".")[0], {}).get("fields") or []
		k = x[5][-1][1]
		# entries of queues are members without a type of their own
		if s.split(".")[0] == "anon" and k in (0, 1): return ("tqe_next", "tqe_prev")[k]
		return fs[k][0] if isinstance(k, int) and k < len(fs) else None
	out, n = [], 0
	for g in prog.repo_fns():
		if g.rel != rel: continue
		for b in g.blocks:
			for i in b:
				if i.op == "store" and member(i.d["a"][1], g) in ("tqe_next", "stqe_next"):
					n += 1
					if i.d["a"][0][0] != "null": out.append((g, i, "an element is put in front of others that have been waiting for longer"))
				elif i.op == "load":
					a = i.d["a"][0]
					f = member(a, g)
					if f in ("tqh_first", "stqh_first"): n += 1
					l = g.instrs.get(a[1]) if a[0] == "v" else None
					if l is not None and l.op == "load" and member(l.d["a"][0], g) in ("tqh_last", "tqe_prev"): out.append((g, i, "an element is taken from the end of the queue"))
					# TAILQ_LAST reads the last pointer of what tqh_last points to
					if l is not None and l.op == "getelementptr" and l.d["gep"][0] == "gep" and l.d["gep"][1][0] == "v":
						k = g.instrs.get(l.d["gep"][1][1])
						if k is not None and k.op == "load" and member(k.d["a"][0], g) == "tqh_last": out.append((g, i, "an element is taken from the end of the queue"))
	return out, n

def writing(prog, contracts, name="loc_writer_write", budget=250000):
	f = prog.fn(name)
	if f is None: raise AnalysisError("%s is gone" % name)
	ck = Layout(prog, f)
	I = Interp(prog, [], budget=budget)
	I.checkers = [ck]
	I.relate = "z"
	I.models = dict(BASE_MODELS); I.models.update(contracts.all_models())
	I.models.update({"rewind": ck.m_rewind, "fseek": ck.m_fseek, "fseeko": ck.m_fseek, "fwrite": ck.m_fwrite,
		"__bswap_16": m_bswap, "__bswap_32": m_bswap, "__bswap_64": m_bswap,
		"loc_writer_create_signature": lambda I2, fr, st, ins, args: [(st, C(0))]})
	for n in ("loc_stringpool_write", "loc_stringpool_get_size"): I.models.pop(n, None)
	# sorting a list does not change its size, and fetching an element does not change the list
	for n in [n for n in I.models if n.endswith("_list_sort")]: I.models[n] = lambda I2, fr, st, ins, args: [(st, None)]
	for n in [n for n in contracts.public if n.endswith("_list_size")]: I.models.pop(n, None)
	I.field_range = own.list_ranges(prog)
	I.entry(f)
	return ck, I
