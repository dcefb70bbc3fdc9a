"""Paths through the tree of networks. Node n is on the path of an address at level l if l = 0 and n is the root, or if n is the child, in the direction of
bit l - 1 of the address, of a node on the path at level l - 1.
  insertion   a network is stored at the node on the path of its first address at the level of its prefix
  lookup      looks at nodes on the path only, hands out a network only if nothing was found further down, with the level as prefix and the bits of the
              path as address, and gives up only where no node on the path has a matching network"""
import itertools
from absint import *
import own, bounds, bits
from frontend import AnalysisError

NODE, LEVEL, GOOD = ("Z", "node"), ("Z", "level"), ("Z", "good")
REC = "loc_database_network_node_v1"

def getters(prog):
	"""Functions that return, or set, a bit of an address."""
	g, s = set(), set()
	for f in prog.repo_fns():
		if len(f.blocks) > 3 or not f.sig or not all("in6_addr*" in t for t in f.sig[1:2]): continue
		try:
			if len(f.sig) == 3 and f.ret == 32 and all(bits.get_bit(prog, f, i) for i in (0, 7, 8, 63, 127)): g.add(f.name)
			if len(f.sig) == 4 and f.ret == "void" and all(bits.set_bit(prog, f, i) for i in (0, 7, 8, 63, 127)): s.add(f.name)
		except (bits.Undecided, TypeError, KeyError, AttributeError): pass
	return g | {"loc_address_get_bit"}, s | {"loc_address_set_bit"}

class Path(bounds.Bounds):
	def on_deref(self, *a): pass
	def on_index(self, *a): pass
	def on_store(self, *a): pass
	def on_load(self, *a): pass
	def on_call(self, *a): pass
	def before_exit(self, *a): pass
	def cell(self, st, c, *v):
		if not v: return st.mem.get((c, 0, 8))
		if v[0] is None: st.mem.pop((c, 0, 8), None); return
		st.meta[c] = {"kind": "Z", "size": C(8)}
		st.mem[(c, 0, 8)] = v[0]
	def same(self, I, st, a, b):
		if a is None or b is None: return False
		if a == b: return True
		if a[0] == "l" and b[0] == "l":
			d = lin_add(a, b, -1)
			return I.le0(st, d, 2) and I.le0(st, lin_mul(d, -1), 2)
		return False
	def m_get_bit(self, I, fr, st, ins, args):
		"""A bit of an address is 0 or 1; remembers which one it is."""
		self.count("bits of addresses")
		out = []
		for b in (0, 1):
			s = st.copy() if b == 0 else st
			if args[0][0] == "p" and args[0][1] == self.address and args[0][2] == C(0) and args[1][0] == "l" and self.same(I, s, args[1], self.cell(s, LEVEL)):
				if s.ts.get("bit", b) != b: continue
				s.ts["bit"] = b
			out.append((s, C(b)))
		return out
	def advance(self, st):
		st.ts.pop("bit", None)

class Lookup(Path):
	"""The recursive function that looks up an address."""
	def __init__(self, prog, contracts, entry, idx, lvl):
		super().__init__(prog, contracts, entry)
		self.idx, self.lvl = idx, lvl
		self.size = prog.structs[REC]["size"]
		self.netsize = prog.structs["loc_database_network_v1"]["size"]
		self.fields = {n: (o, z) for n, o, z, t in prog.structs[REC]["fields"]}
		for n in ("zero", "one", "network"):
			if n not in self.fields: raise AnalysisError("%s.%s is gone" % (REC, n))
		self.bases = {}
	def field_hook(self, I, st, ptr, f, v):
		r = super().field_hook(I, st, ptr, f, v)
		if f[0] == "loc_database" and r is not None:
			for sec, z in (("network_node_objects", self.size), ("network_objects", self.netsize)):
				if f[1] == sec + ".data":
					n = self.get(I, st, ptr[1], f[0], sec + ".count")
					l = self.get(I, st, ptr[1], f[0], "length")
					I.add_le(st, lin_add(lin_add(r[2], lin_mul(n, z)), l, -1))
					self.bases[sec] = r
		return r
	def position(self, I, st, p, sec, z):
		b = self.bases.get(sec)
		if p[0] != "p" or b is None or p[1] != b[1]: return None
		d = lin_add(p[2], b[2], -1)
		if d[0] != "l" or d[1] % z or any(c % z for _, c in d[2]): return None
		return ("l", d[1] // z, tuple((s, c // z) for s, c in d[2]))
	def on_load(self, I, st, fr, ins, ptr, size, v):
		for n, (o, z) in self.fields.items():
			if size != z: continue
			i = self.position(I, st, ("p", ptr[1], lin_add(ptr[2], C(-o))), "network_node_objects", self.size) if ptr[0] == "p" and ptr[2][0] == "l" else None
			if i is not None and self.same(I, st, i, self.cell(st, NODE)):
				self.count("reads of nodes")
				# children and networks of a database that was written exist
				w = self.swap(I, st, v)
				new = ("in", n) not in st.ts
				st.ts[("in", n)] = 1
				if n != "network" and w[0] == "l" and new:
					I.add_le(st, lin_add(lin_add(w, self.get(I, st, self.db, "loc_database", "network_node_objects.count"), -1), C(1)))
				st.mem[(("Y", n), 0, 8)] = v
				st.meta[("Y", n)] = {"kind": "Z", "size": C(8)}
	def swap(self, I, st, v): return m_bswap(I, None, st, type("I", (), {"ty": 32, "d": {}})(), [v])[0][1]
	def child(self, I, st):
		"""Number of the child on the path, None if it has not been read in the direction of the address."""
		b = st.ts.get("bit")
		if b is None: return None
		if ("in", ("zero", "one")[b]) not in st.ts: return None
		v = st.mem.get((("Y", ("zero", "one")[b]), 0, 8))
		return None if v is None else self.swap(I, st, v)
	def nothing_below(self, I, st):
		"""None, or why something could have been found further down."""
		if st.ts.get("below") == "none": return None
		if I.le0(st, lin_add(C(128), self.cell(st, LEVEL), -1), 2): return None
		c = self.child(I, st)
		if c is None: return "the child in the direction of the address was not looked at"
		if I.truth(st, c) is False or self.same(I, st, c, C(0)): return None
		return "the child in the direction of the address was not searched"
	def m_set_bit(self, I, fr, st, ins, args):
		if args[0][0] == "p" and args[0][1] == self.netaddr and args[1][0] == "l":
			self.count("bits set")
			i, g = args[1], self.cell(st, GOOD)
			ok = args[2][0] == "l" and is_const(args[2]) and st.ts.get("bit") == args[2][1] and self.same(I, st, i, self.cell(st, LEVEL))
			if self.same(I, st, i, g) and ok: self.cell(st, GOOD, lin_add(g, C(1)))
			elif I.le0(st, lin_add(lin_add(i, g, -1), C(1)), 2) and not ok: self.cell(st, GOOD, i)
			elif not ok and not I.le0(st, lin_add(g, i, -1), 2): self.cell(st, GOOD, C(0))
		return [(st, None)]
	def m_recurse(self, I, fr, st, ins, args):
		self.count("descents")
		l = self.cell(st, LEVEL)
		why = None
		c = self.child(I, st)
		for k, what in ((self.p_db, "database"), (self.p_addr, "address"), (self.p_out, "result"), (self.p_net, "path")):
			if k is not None and args[k] != self.entry_args[k]: why = "another %s" % what
		if why is None and (c is None or not self.same(I, st, args[self.idx], c)): why = "a node that is not the child in the direction of the address"
		elif why is None and not self.same(I, st, args[self.lvl], lin_add(l, C(1))): why = "another level than the next one"
		elif why is None and not I.le0(st, lin_add(args[self.lvl], self.cell(st, GOOD), -1), 2): why = "a path of which not all bits are known"
		if why: self.report("path", fr.fn, ins, "the search goes on with %s" % why, st, key=why)
		f2, f3 = st.copy(), st.copy()
		st.ts["below"] = "none"
		f2.ts["below"] = "found"
		I.write(f2, args[self.p_out], 8, I.fresh_ptr(f2, "loc_network", nonnull=True))
		f3.ts["failed"] = 1
		return [(st, C(0)), (f2, C(0)), (f3, C(1))]
	def m_maker(self, inner):
		def m(I, fr, st, ins, args):
			self.count("networks made")
			f = self.prog.fn(self.maker)
			why = None
			out, addr, prefix, rec = self.maker_args
			net = st.mem.get((("Y", "network"), 0, 8))
			i = self.position(I, st, args[rec], "network_objects", self.netsize)
			if net is None or i is None or not self.same(I, st, i, self.swap(I, st, net)): why = "is not the one of the node"
			elif args[addr] != self.entry_args[self.p_net]: why = "does not have the bits of the path as its address"
			elif not self.same(I, st, args[prefix], self.cell(st, LEVEL)): why = "does not have the level of its node as its prefix"
			elif not I.le0(st, lin_add(self.cell(st, LEVEL), self.cell(st, GOOD), -1), 2): why = "has an address of which not all bits are known"
			elif args[out] != self.entry_args[self.p_out]: why = None
			if why: self.report("leaf", fr.fn, ins, "the network found %s" % why, st, key=why)
			w = self.nothing_below(I, st)
			if w: self.report("specific", fr.fn, ins, "a network is taken although there may be a more specific one: %s" % w, st, key=w)
			res = []
			for s, v in inner(I, fr, st, ins, args):
				if v[0] == "l" and I.truth(s, v) is not False: s.ts["failed"] = 1
				else: s.ts["leaf"] = "made"
				res.append((s, v))
			return res
		return m
	def m_matches(self, I, fr, st, ins, args):
		if len(args) < 2 or args[1][0] != "p" or args[1][1] != self.address:
			return [(st, C(1)), (st.copy(), C(0))]
		f2 = st.copy()
		f2.ts["leaf"] = "other"
		return [(st, C(1)), (f2, C(0))]
	def on_ret(self, I, st, fr, ins, v):
		self.count("returns checked")
		if st.ts.get("failed"): return
		v = I.resolve(st, v)
		if v[0] == "l" and I.truth(st, v) is True:
			n = st.mem.get((("Y", "network"), 0, 8))
			if n is not None:
				# the network does not exist
				d = lin_add(self.get(I, st, self.db, "loc_database", "network_objects.count"), self.swap(I, st, n), -1)
				if d[0] == "l" and I.le0(st, d, 2): return
			self.report("gives-up", fr.fn, ins, "the search fails although nothing went wrong", st, key="fails")
			return
		w = st.mem.get((self.entry_args[self.p_out][1], 0, 8))
		if w is not None and w[0] == "p" and I.is_nonnull(st, w): return
		if st.ts.get("below") == "found":
			self.report("gives-up", fr.fn, ins, "the network that was found is not handed out", st, key="dropped"); return
		why = self.nothing_below(I, st)
		if why is None and st.ts.get("leaf") == "made": why = "the network of the node is not handed out"
		if why is None and st.ts.get("leaf") != "other":
			n = st.mem.get((("Y", "network"), 0, 8))
			if n is None or ("in", "network") not in st.ts: why = "the network of the node was not looked at"
			elif not self.same(I, st, I.resolve(st, n), C(0xffffffff)) and not self.same(I, st, I.resolve(st, n), C(-1)): why = "the node may have a network"
		if why: self.report("gives-up", fr.fn, ins, "nothing is found although there may be a network: %s" % why, st, key=why)

def recursive(prog, f, seen=None):
	"""The function below f that calls itself."""
	todo, seen = [f], set()
	while todo:
		g = todo.pop(0)
		if g in seen: continue
		seen.add(g)
		for i in g.calls():
			h = prog.lookup(g.unit, i.d.get("fn"))
			if h is g and g is not f: return g
			if h is not None and h.internal: todo.append(h)
	return None

def machine(prog, contracts, ck, budget):
	I = Interp(prog, [], budget=budget)
	I.checkers = [ck]
	I.relate = "all"
	I.models = dict(BASE_MODELS); I.models.update(contracts.all_models())
	for n in bounds.inlined(contracts): I.models.pop(n, None)
	I.field_hook = ck.field_hook
	I.field_range = ck.ranges()
	I.field_range[("loc_database", "version")] = (1, 1)
	I.track = ck.track
	for n in ("__bswap_16", "__bswap_32", "__bswap_64"): I.models[n] = m_bswap
	ck.outs_now = {}
	return I

def kinds(f):
	d = {}
	for i, t in enumerate(f.sig[1:]):
		if own.struct_ptr(t) == "loc_database": d.setdefault("db", i)
		elif own.struct_ptr(t, 2) == "loc_network": d.setdefault("out", i)
		elif "in6_addr*" in t.replace(" *", "*"): d.setdefault("addr" if t.startswith("const") else "net", i)
	return d

def lookup(prog, contracts, budget=60000):
	top = prog.fn("loc_database_lookup")
	if top is None: raise AnalysisError("loc_database_lookup is gone")
	f = recursive(prog, top)
	if f is None: return [], None
	k = kinds(f)
	ints = [i for i, p in enumerate(f.params) if isinstance(p["ty"], int)]
	if not all(x in k for x in ("db", "out", "addr", "net")) or len(ints) < 2: return [], None
	g, s = getters(prog)
	maker = "loc_network_new_from_database_v1"
	mf = prog.fn(maker)
	if mf is None: raise AnalysisError("%s is gone" % maker)
	best = None
	for idx, lvl in itertools.permutations(ints, 2):
		ck = Lookup(prog, contracts, f, idx, lvl)
		ck.maker = maker
		out = [i for i, t in enumerate(mf.sig[1:]) if own.struct_ptr(t, 2)][0]
		addr = [i for i, t in enumerate(mf.sig[1:]) if "in6_addr" in t][0]
		prefix = [i for i, p in enumerate(mf.params) if isinstance(p["ty"], int)][0]
		rec = [i for i, t in enumerate(mf.sig[1:]) if "loc_database_network_v1" in t][0]
		ck.maker_args = (out, addr, prefix, rec)
		I = machine(prog, contracts, ck, budget)
		I.models[maker] = ck.m_maker(contracts.all_models()[maker])
		I.models[f.name] = ck.m_recurse
		I.models["loc_network_matches_address"] = ck.m_matches
		for n in g: I.models[n] = ck.m_get_bit
		for n in s: I.models[n] = ck.m_set_bit
		def setup(I2, st, args):
			ck.entry_args = list(args)
			ck.p_db, ck.p_addr, ck.p_out, ck.p_net = k["db"], k["addr"], k["out"], k["net"]
			ck.db, ck.address, ck.netaddr = args[k["db"]][1], args[k["addr"]][1], args[k["net"]][1]
			I2.keyregs.add(args[k["out"]][1])
			I2.write(st, args[k["out"]], 8, NULL)
			for a, lo, hi in ((args[idx], 0, bounds.U32), (args[lvl], 0, 128)):
				for (sid, _) in a[2]: st.info[sid] = (lo, hi, False)
			for sec in ("network_node_objects", "network_objects"): ck.get(I2, st, ck.db, "loc_database", sec + ".data")
			n = ck.get(I2, st, ck.db, "loc_database", "network_node_objects.count")
			I2.add_le(st, lin_add(lin_add(args[idx], n, -1), C(1)))
			ck.cell(st, NODE, args[idx]); ck.cell(st, LEVEL, args[lvl]); ck.cell(st, GOOD, args[lvl])
		I.entry(f, setup)
		if best is None or len(ck.reports) < len(best.reports): best = ck
	cks = [best]
	# how it is started
	class Top(Path):
		def m_start(self, I, fr, st, ins, args):
			self.count("lookups started")
			why = None
			if args[k["db"]] != self.args[0]: why = "in another database"
			elif args[k["addr"]] != self.args[1]: why = "for another address"
			elif not all(args[i][0] == "l" and self.same(I, st, args[i], C(0)) for i in (best.idx, best.lvl)): why = "not at the root"
			if why: self.report("path", fr.fn, ins, "the search starts %s" % why, st, key=why)
			w = I.read(st, args[k["out"]], 8, "ptr")
			if w != NULL: self.report("path", fr.fn, ins, "the search starts with a result", st, key="result")
			f2, f3 = st.copy(), st.copy()
			f2.ts["found"] = 1
			I.write(f2, args[k["out"]], 8, ("p", ("the", "network"), C(0)))
			f2.meta[("the", "network")] = {"kind": "D", "ty": "loc_network", "size": None}
			f2.nonnull |= {("the", "network")}
			st.ts["none"] = 1
			return [(st, C(0)), (f2, C(0)), (f3, C(1))]
		def on_ret(self, I, st, fr, ins, v):
			self.count("returns checked")
			if not (st.ts.get("found") or st.ts.get("none")): return
			w = st.mem.get((self.args[2][1], 0, 8))
			v = I.resolve(st, v)
			if I.truth(st, v) is not False: self.report("gives-up", fr.fn, ins, "the lookup fails although the search did not", st, key="fails")
			elif st.ts.get("found") and (w is None or w[0] != "p" or w[1] != ("the", "network")): self.report("gives-up", fr.fn, ins, "the network that was found is not handed out", st, key="dropped")
	t = Top(prog, contracts, top)
	I = machine(prog, contracts, t, budget)
	I.models[f.name] = t.m_start
	def setup2(I2, st, args):
		t.args = list(args)
		I2.keyregs.add(args[2][1])
		I2.write(st, args[2], 8, I2.fresh_ptr(st, "loc_network"))
	I.entry(top, setup2)
	cks.append(t)
	return cks, f

# -- insertion
class Insert(Path):
	"""A network is put into the node at the end of its path."""
	def m_step(self, I, fr, st, ins, args):
		self.count("steps")
		b = st.ts.get("bit")
		why = None
		if args[0][0] != "p" or args[0][1] != ("cur",): why = "from another node than the last one"
		elif b is None or args[1] != C(b): why = "in another direction than that of the next bit of the address"
		if why: self.report("path", fr.fn, ins, "the path of a network goes on %s" % why, st, key=why)
		f2 = st.copy()
		f2.ts["failed"] = 1
		self.cell(st, LEVEL, lin_add(self.cell(st, LEVEL), C(1)))
		self.advance(st)
		return [(st, ("p", ("cur",), C(0))), (f2, NULL)]
	def m_get_bit(self, I, fr, st, ins, args):
		o, z = self.off("loc_network", "first_address")
		self.count("bits of addresses")
		out = []
		mine = args[0][0] == "p" and args[0][1] == self.network and args[0][2] == C(o) and args[1][0] == "l" and self.same(I, st, args[1], self.cell(st, LEVEL))
		for b in (0, 1):
			s = st.copy() if b == 0 else st
			if mine: s.ts["bit"] = b
			else: s.ts.pop("bit", None)
			out.append((s, C(b)))
		return out
	def on_store(self, I, st, fr, ins, ptr, size, val):
		o, z = self.off("loc_network_tree_node", "network")
		if ptr[0] != "p" or ptr[1] != ("cur",) or ptr[2] != C(o): return
		self.count("networks stored")
		p = self.cell(st, ("Z", "prefix"))
		if not self.same(I, st, p, self.cell(st, LEVEL)): self.report("path", fr.fn, ins, "the node of a network is not at the level of its prefix", st, key="level")
		if self.adds:
			if val[0] != "p" or val[1] != self.network: self.report("path", fr.fn, ins, "another network than the one given is stored", st, key="other")
			elif st.ts.get("there") is not False and self.there(I, st) is not False: self.report("path", fr.fn, ins, "a network replaces one that is there already", st, key="replaced")
			else: st.ts["stored"] = 1
	def there(self, I, st):
		v = self.get(I, st, ("cur",), "loc_network_tree_node", "network")
		return None if v != NULL and not I.is_nonnull(st, v) else v != NULL
	def on_ret(self, I, st, fr, ins, v):
		self.count("returns checked")
		if self.adds and not st.ts.get("failed"):
			v = I.resolve(st, v)
			if v[0] == "l" and I.truth(st, v) is not True and not st.ts.get("stored"): self.report("path", fr.fn, ins, "reports success without having stored the network", st, key="not stored")

class Child(Path):
	"""The child of a node in a direction."""
	def on_ret(self, I, st, fr, ins, v):
		self.count("children handed out")
		v = I.resolve(st, v)
		if v == NULL: return
		w = self.get(I, st, self.node, "loc_network_tree_node", ("zero", "one")[self.way])
		if v != w: self.report("path", fr.fn, ins, "the child handed out for a bit of %d is not that one" % self.way, st, key=str(self.way))

def insertion(prog, contracts, budget=60000):
	cks = []
	g, _ = getters(prog)
	node = lambda t: own.struct_ptr(t) == "loc_network_tree_node"
	steps = [f for f in prog.repo_fns() if len(f.sig) == 3 and node(f.sig[0]) and node(f.sig[1]) and isinstance(f.params[1]["ty"], int)]
	for f in steps:
		for way in (0, 1):
			ck = Child(prog, contracts, f)
			I = machine(prog, contracts, ck, budget)
			for n in ("loc_network_tree_node_ref",): I.models.pop(n, None)
			def setup(I2, st, args):
				ck.node, ck.way = args[0][1], way
				for (sid, _) in args[1][2]: st.info[sid] = (way, way, False)
				I2.assume_int(st, "eq", args[1], C(way), 32)
			I.entry(f, setup)
			cks.append(ck)
	for f in prog.repo_fns():
		if len(f.sig) != 3 or own.struct_ptr(f.sig[1]) != "loc_network_tree" or own.struct_ptr(f.sig[2]) != "loc_network" or f.ret != 32: continue
		ck = Insert(prog, contracts, f)
		ck.adds = f.name == "loc_network_tree_add_network"
		I = machine(prog, contracts, ck, budget)
		for s in steps:
			if s.internal: I.models[s.name] = ck.m_step
		for n in g: I.models[n] = ck.m_get_bit
		def setup2(I2, st, args):
			ck.network = args[1][1]
			st.meta[("cur",)] = {"kind": "D", "ty": "loc_network_tree_node", "size": None}
			st.nonnull |= {("cur",)}
			o, z = ck.off("loc_network_tree", "root")
			I2.write(st, ("p", args[0][1], C(o)), 8, ("p", ("cur",), C(0)))
			ck.cell(st, LEVEL, C(0))
			ck.cell(st, ("Z", "prefix"), ck.get(I2, st, ck.network, "loc_network", "prefix"))
		I.entry(f, setup2)
		cks.append(ck)
	return cks

# -- networks
class Inside(Path):
	"""Whether an address lies in a network."""
	def m_cmp(self, I, fr, st, ins, args):
		self.count("comparisons")
		def which(p):
			if p[0] != "p": return None
			if p[1] == self.address: return "a" if p[2] == C(0) else None
			for n in ("first", "last"):
				if p[1] == self.network and p[2] == C(self.off("loc_network", n + "_address")[0]): return n
		a, b = which(args[0]), which(args[1])
		s = st.ts["case"]
		if b == "a" and a in ("first", "last"): c = s[a == "last"]
		elif a == "a" and b in ("first", "last"): c = -s[b == "last"]
		else: return [(st, I.fresh(st, -1, 1))]
		v = C(0) if c == 0 else I.fresh(st, 1, 255) if c > 0 else I.fresh(st, -255, -1)
		return [(st, v)]
	def on_ret(self, I, st, fr, ins, v):
		self.count("cases of containment")
		s = st.ts["case"]
		want = s[0] <= 0 and s[1] >= 0
		t = I.truth(st, I.resolve(st, v))
		if t is not want: self.report("inside", fr.fn, ins, "an address %s its network is said to be %s" % ("outside of" if not want else "in" if 0 not in s else "at the boundary of", "inside" if not want else "outside"), st, key=str(s))

V4 = (0, 0x01020304ffff0000)
OTHER = ((1, 0x01020304ffff0000), (1 << 32, 0x01020304ffff0000), (0, 1 << 56), (0, 0x0102030400000000))

class Make(Path):
	"""Addresses of a network are those of its prefix."""
	def __init__(self, *a):
		super().__init__(*a)
		self.tags = {}
	def tagged(self, I, st, info):
		v = I.fresh(st, 0, 1 << 60)
		self.tags[v[2][0][0]] = info
		return v
	def tag(self, v): return self.tags.get(v[2][0][0]) if v is not None and v[0] == "l" and len(v[2]) == 1 and v[1] == 0 else None
	def extract(self, I, st, v, ix):
		t = self.tag(v)
		if t is None or not ix: return None
		if t[0] == "and" and self.result: return C(self.result[ix[0]])
		k = ("half", ix[0], t)
		return I.derived(st, ("half", ix[0], v), 0, (1 << 64) - 1) if self.note(k, I, st, v, ix[0]) else None
	def note(self, k, I, st, v, i):
		d = I.derived(st, ("half", i, v), 0, (1 << 64) - 1)
		self.tags[d[2][0][0]] = k
		return True
	def whole(self, I, st, p):
		"""What a variable of 16 bytes holds."""
		if p[0] != "p" or not is_const(p[2]): return None
		h = [self.tag(st.mem.get((p[1], p[2][1] + 8 * i, 8))) for i in (0, 1)]
		if None in h or any(x[0] != "half" or x[1] != i for i, x in enumerate(h)) or h[0][2] != h[1][2]: return None
		return h[0][2]
	def m_mask(self, I, fr, st, ins, args):
		self.count("masks")
		return [(st, self.tagged(I, st, ("mask", args[0])))]
	def m_and(self, kind):
		def m(I, fr, st, ins, args):
			self.count("masked addresses")
			w = self.whole(I, st, args[1])
			a = args[0]
			if w is None or w[0] != "mask": return [(st, I.fresh(st, 0, 1 << 60))]
			if kind == "and" and a != self.address: return [(st, I.fresh(st, 0, 1 << 60))]
			if kind == "or" and a != self.address:
				x = self.whole(I, st, a)
				if x is None or x[0] != "and": return [(st, I.fresh(st, 0, 1 << 60))]
			return [(st, self.tagged(I, st, (kind, w[1])))]
		return m

class New(Make):
	result = None
	def on_ret(self, I, st, fr, ins, v):
		v = I.resolve(st, v)
		if v[0] != "l" or I.truth(st, v) is not False: return
		self.count("networks made")
		n = st.mem.get((self.out, 0, 8))
		if n is None or n[0] != "p": return
		p = self.get(I, st, n[1], "loc_network", "prefix")
		want = lin_add(self.prefix, C(96)) if self.v4 else self.prefix
		why = None
		if not self.same(I, st, p, want): why = "the prefix of a network is not the one it was given"
		else:
			for f, kind in (("first_address", "and"), ("last_address", "or")):
				w = self.whole(I, st, ("p", n[1], C(self.off("loc_network", f)[0])))
				if w is None or w[0] != kind or not self.same(I, st, w[1], p): why = "the %s of a network is not the one of its prefix" % f.replace("_", " "); break
		if why: self.report("network", fr.fn, ins, why, st, key=why)

class FromDatabase(Make):
	def m_new(self, inner):
		def m(I, fr, st, ins, args):
			self.count("networks made")
			why = None
			ws = [I.read(st, ("p", args[2][1], lin_add(args[2][2], C(o))), 4, 32) for o in (0, 4, 8)] if args[2][0] == "p" else [None]
			ws = [x[1] & 0xffffffff if x is not None and is_const(x) else None for x in ws]
			if None not in ws:
				want = lin_add(self.level, C(-96)) if ws == [0, 0, 0xffff0000] else self.level
				if not self.same(I, st, args[3], want) or not I.ge0(st, args[3]): why = "prefix"
			else: why = "address"
			if why: self.report("network", fr.fn, ins, "a network is made with another %s than it has in the database" % why, st, key=why)
			return inner(I, fr, st, ins, args)
		return m
	def m_and2(self, I, fr, st, ins, args):
		w = self.whole(I, st, args[1])
		self.count("masked addresses")
		if w is None or w[0] != "mask" or args[0] != self.address or not self.same(I, st, w[1], self.level): return [(st, I.fresh(st, 0, 1 << 60))]
		return [(st, self.tagged(I, st, ("and", w[1])))]

def networks(prog, contracts, budget=60000):
	cks = []
	def need(n):
		f = prog.fn(n)
		if f is None: raise AnalysisError("%s is gone" % n)
		return f
	f = need("loc_network_matches_address")
	for s in [(a, b) for a in (-1, 0, 1) for b in (-1, 0, 1) if (a, b) not in ((1, 0), (0, -1), (1, -1))]:
		ck = Inside(prog, contracts, f)
		I = machine(prog, contracts, ck, budget)
		I.models["loc_address_cmp"] = ck.m_cmp
		for n in ("memcmp",): I.models[n] = ck.m_cmp
		def setup(I2, st, args):
			ck.network, ck.address = args[0][1], args[1][1]
			st.ts["case"] = s
		I.entry(f, setup)
		cks.append(ck)
	f = need("loc_network_new")
	for words in (V4,) + OTHER:
		ck = New(prog, contracts, f)
		I = machine(prog, contracts, ck, budget)
		I.models.pop("loc_network_new", None)
		I.models["loc_prefix_to_bitmask"] = ck.m_mask
		I.models["loc_address_and"], I.models["loc_address_or"] = ck.m_and("and"), ck.m_and("or")
		I.extract = ck.extract
		def setup2(I2, st, args):
			ck.address, ck.prefix, ck.out, ck.v4 = args[2], args[3], args[1][1], words is V4
			for i in (0, 1): I2.write(st, ("p", args[2][1], C(8 * i)), 8, C(words[i]))
			for (sid, _) in args[3][2]: st.info[sid] = (0, bounds.U32, False)
			I2.keyregs.add(args[1][1])
			I2.write(st, args[1], 8, NULL)
		I.entry(f, setup2)
		cks.append(ck)
	f = need("loc_network_new_from_database_v1")
	for words, lo, hi, res in [(V4, 96, 128, V4), (V4, 0, 95, (0, 0))] + [(w, 0, 128, (0, 0)) for w in OTHER]:
		ck = FromDatabase(prog, contracts, f)
		ck.result = res
		I = machine(prog, contracts, ck, budget)
		I.models["loc_network_new"] = ck.m_new(contracts.all_models()["loc_network_new"])
		I.models["loc_prefix_to_bitmask"] = ck.m_mask
		I.models["loc_address_and"] = ck.m_and2
		I.extract = ck.extract
		def setup3(I2, st, args):
			ck.address, ck.level = args[2], args[3]
			for i in (0, 1): I2.write(st, ("p", args[2][1], C(8 * i)), 8, C(words[i]))
			for (sid, _) in args[3][2]: st.info[sid] = (lo, hi, False)
		I.entry(f, setup3)
		cks.append(ck)
	return cks
