"""Enumeration of networks: what is filtered out, and the walk over the tree."""
import itertools
from absint import *
import own, bounds, walk
from walk import Path, machine, NODE
from frontend import AnalysisError

E = "loc_database_enumerator"

def finders(prog):
	"""The function that decides whether a network matches the filters."""
	return [f for f in prog.repo_fns() if len(f.sig) == 3 and f.ret == 32 and own.struct_ptr(f.sig[1]) == E and own.struct_ptr(f.sig[2]) == "loc_network"]

class Match(Path):
	def m_empty(self, which):
		def m(I, fr, st, ins, args):
			if args[0][0] == "p" and args[0][1] == ("list", which): return [(st, C(1 if self.case[which] == "empty" else 0))]
			return [(st, I.fresh(st, 0, 1))]
		return m
	def m_size(self, which):
		def m(I, fr, st, ins, args):
			if args[0][0] == "p" and args[0][1] == ("list", which): return [(st, C(0) if self.case[which] == "empty" else I.fresh(st, 1, 1 << 20))]
			return [(st, I.fresh(st, 0, 1 << 20))]
		return m
	def m_contains(self, which):
		def m(I, fr, st, ins, args):
			self.count("lists searched")
			ok = args[0][0] == "p" and args[0][1] == ("list", which)
			if which == "countries": ok = ok and args[1][0] == "p" and args[1][1] == self.network and args[1][2] == C(self.off("loc_network", "country_code")[0])
			else: ok = ok and self.same(I, st, args[1], self.get(I, st, self.network, "loc_network", "asn"))
			if not ok: return [(st.copy(), C(0)), (st, C(1))]
			return [(st, C(1 if self.case[which] == "yes" else 0))]
		return m
	def m_flag(self, I, fr, st, ins, args):
		self.count("flags tested")
		if args[0][0] == "p" and args[0][1] == self.network and self.same(I, st, args[1], self.get(I, st, self.enum, E, "flags")):
			return [(st, I.fresh(st, 1, 0xffff) if self.case["flags"] == "yes" else C(0))]
		return [(st.copy(), C(0)), (st, C(1))]
	def m_family(self, I, fr, st, ins, args): return [(st, C(2 if self.case["family"] != "other" else 10))]
	def want(self):
		c = self.case
		if c["family"] == "other": return False
		if c["countries"] == "null" and c["asns"] == "null" and c["flags"] == "unset": return True
		return "yes" in (c["countries"], c["asns"], c["flags"])
	def on_ret(self, I, st, fr, ins, v):
		self.count("combinations of filters")
		t = I.truth(st, I.resolve(st, v))
		if t is not self.want():
			d = ", ".join("%s: %s" % x for x in sorted(self.case.items()))
			self.report("filter", fr.fn, ins, "a network that %s the filters is %s (%s)" % (("matches", "left out") if self.want() else ("does not match", "returned")) + (d,) if False else "a network that %s the filters may be %s (%s)" % (("matches", "left out", d) if self.want() else ("does not match", "returned", d)), st, key="matches" if self.want() else "other")

def matching(prog, contracts, budget=20000):
	out = []
	for f in finders(prog):
		for fam, co, asn, fl in itertools.product(("unset", "equal", "other"), ("null", "empty", "no", "yes"), ("null", "empty", "no", "yes"), ("unset", "no", "yes")):
			ck = Match(prog, contracts, f)
			ck.case = dict(family=fam, countries=co, asns=asn, flags=fl)
			I = machine(prog, contracts, ck, budget)
			I.models["loc_country_list_empty"], I.models["loc_as_list_empty"] = ck.m_empty("countries"), ck.m_empty("asns")
			I.models["loc_country_list_size"], I.models["loc_as_list_size"] = ck.m_size("countries"), ck.m_size("asns")
			I.models["loc_country_list_contains_code"], I.models["loc_as_list_contains_number"] = ck.m_contains("countries"), ck.m_contains("asns")
			I.models["loc_network_has_flag"] = ck.m_flag
			I.models["loc_network_address_family"] = ck.m_family
			def setup(I2, st, args):
				ck.enum, ck.network = args[0][1], args[1][1]
				def put(n, v):
					o, z = ck.off(E, n)
					I2.write(st, ("p", ck.enum, C(o)), z, v)
				put("family", C(0 if fam == "unset" else 2))
				for n, x in (("countries", co), ("asns", asn)):
					if x == "null": put(n, NULL); continue
					st.meta[("list", n)] = {"kind": "D", "ty": "loc_%s_list" % ("country" if n == "countries" else "as"), "size": None}
					st.nonnull |= {("list", n)}
					put(n, ("p", ("list", n), C(0)))
				put("flags", C(0) if fl == "unset" else I2.fresh(st, 1, 0xffff))
			I.entry(f, setup)
			out.append(ck)
	return out

class Next(walk.Lookup):
	"""The function that returns the next network."""
	def __init__(self, prog, contracts, entry):
		super().__init__(prog, contracts, entry, None, None)
		self.visited = set()
	def m_match(self, I, fr, st, ins, args):
		self.count("networks matched")
		f2 = st.copy()
		st.ts["net"], f2.ts["net"] = "yes", "no"
		return [(st, C(1)), (f2, C(0))]
	def m_pop(self, I, fr, st, ins, args):
		f2 = st.copy()
		st.ts["net"] = "new"
		return [(st, I.fresh_ptr(st, "loc_network", nonnull=True)), (f2, NULL)]
	def on_call(self, I, st, fr, ins, name, args):
		if own.UNREF.match(name) and st.ts.get("net") and own.struct_ptr((self.prog.fn(name).sig + [""])[1] if self.prog.fn(name) else "") == "loc_network":
			self.count("networks dropped")
			if st.ts["net"] != "no": self.report("dropped", fr.fn, ins, "a network is dropped without having been found not to match", st, key=st.ts["net"])
			st.ts.pop("net")
	def entry_of(self, I, st, ptr):
		"""Entry of the stack a pointer lies in, and its field."""
		if ptr[0] != "p" or ptr[1] != self.enum or ptr[2][0] != "l": return None
		o, z = self.off(E, "network_stack")
		e = self.prog.structs["loc_node_stack"]["size"]
		if is_const(ptr[2]) and not o <= ptr[2][1] < o + z: return None
		if any(k % e for _, k in ptr[2][2]): return None
		r = (ptr[2][1] - o) % e
		return lin_add(ptr[2], C(-r)), next((n for n, fo, fz, t in self.prog.structs["loc_node_stack"]["fields"] if fo == r), None)
	def y(self, st, n, *v):
		if not v: return st.mem.get((("Y", n), 0, 8))
		st.meta[("Y", n)] = {"kind": "Z", "size": C(8)}
		st.mem[(("Y", n), 0, 8)] = v[0]
	def settle(self, I, st):
		"""Remembers what there is not, as relations do not survive joins."""
		if not st.ts.get("node"): return
		for n in ("zero", "one", "network"):
			v = self.y(st, n)
			if ("in", n) not in st.ts or ("none", n) in st.ts or v is None: continue
			r = I.resolve(st, v)
			if n == "network": none = self.same(I, st, r, C(0xffffffff)) or self.same(I, st, r, C(-1))
			else: none = self.same(I, st, self.swap(I, st, v), C(0)) or I.truth(st, v) is False
			if none: st.ts[("none", n)] = 1
	def on_load(self, I, st, fr, ins, ptr, size, v):
		self.settle(I, st)
		bounds.Bounds.on_load(self, I, st, fr, ins, ptr, size, v)
		if ptr[0] == "p" and ptr[1] == self.enum and ptr[2] == C(self.off(E, "networks_visited")[0]) and v[0] == "p": self.visited.add(v[1])
		x = self.entry_of(I, st, ptr)
		if x and x[1]:
			self.count("reads of the stack")
			self.y(st, "top." + x[1], v)
			st.ts[("top", x[1])] = 1
			return
		if ptr[0] == "p" and ptr[1] in self.visited:
			o = self.y(st, "top.offset")
			st.ts.pop("vis", None)
			if ("top", "offset") in st.ts and o is not None and ptr[2][0] == "l" and self.same(I, st, ptr[2], lin_mul(o, 4)):
				self.y(st, "vis", v)
				st.ts["vis"] = 1
			return
		if ptr[0] == "p" and ptr[2][0] == "l":
			for n, (o, z) in self.fields.items():
				if size != z: continue
				i = self.position(I, st, ("p", ptr[1], lin_add(ptr[2], C(-o))), "network_node_objects", self.size)
				if i is None or not st.ts.get("node"): continue
				self.count("reads of nodes")
				if not self.same(I, st, i, self.y(st, "node")): st.ts["other node"] = 1
				else:
					self.y(st, n, v)
					st.ts[("in", n)] = 1
	def on_store(self, I, st, fr, ins, ptr, size, val):
		x = self.entry_of(I, st, ptr)
		if x and x[1]:
			self.count("writes to the stack")
			d = dict(st.ts.get("entry", ()))
			if x[1] == "offset":
				d["offset"] = next((n for n in ("zero", "one") if ("in", n) in st.ts and self.y(st, n) is not None and self.same(I, st, val, self.swap(I, st, self.y(st, n)))), "?")
			elif x[1] == "i": d["i"] = val[1] if is_const(val) else "?"
			elif x[1] == "depth":
				t = self.y(st, "depth")
				d["depth"] = 1 if t is not None and val[0] == "l" and self.same(I, st, val, lin_add(t, C(1))) else 0
			if len(d) == 3:
				st.ts.pop("entry", None)
				if not st.ts.get("node"): return
				why = None
				if d["offset"] == "?": why = "another node than a child of the current one"
				elif d["i"] != ("zero", "one").index(d["offset"]): why = "the child %s with another bit" % d["offset"]
				elif not d["depth"]: why = "a child with another depth than the next one"
				elif ("pushed", d["offset"]) in st.ts: why = "the child %s twice" % d["offset"]
				elif d["offset"] == "one" and ("pushed", "zero") in st.ts: why = "the child one on top of the child zero"
				if why: self.report("walk", fr.fn, ins, "the enumeration visits %s" % why, st, key=why)
				if d["offset"] != "?": st.ts[("pushed", d["offset"])] = 1
			else: st.ts["entry"] = tuple(sorted(d.items()))
			return
		if ptr[0] == "p" and ptr[1] == self.enum and ptr[2] == C(self.off(E, "network_stack_depth")[0]):
			old = self.get(I, st, self.enum, E, "network_stack_depth")
			if val[0] == "l" and old[0] == "l" and I.le0(st, lin_add(lin_add(val, old, -1), C(1)), 4):
				# the top of the stack is removed, what is below it is another step
				self.count("nodes removed")
				w = self.y(st, "vis")
				if w is not None and "vis" in st.ts and I.truth(st, I.resolve(st, w)) is True or st.ts.get("popped"):
					self.finish(I, st, fr, ins)
					return "stop"
				st.ts["popped"] = 1
			return
		if ptr[0] == "p" and ptr[1] in self.visited and ptr[2][0] == "l":
			self.count("nodes visited")
			if st.ts.get("node"):
				self.finish(I, st, fr, ins)
				return "stop"
			st.ts.pop("popped", None)
			o = self.y(st, "top.offset")
			if ("top", "offset") not in st.ts or o is None or not self.same(I, st, ptr[2], lin_mul(o, 4)): self.report("walk", fr.fn, ins, "another node is marked as visited than the one on top of the stack", st, key="mark")
			for k in [k for k in st.ts if isinstance(k, tuple) and k[0] in ("in", "pushed")]: st.ts.pop(k)
			for k in ("made", "other node", "entry"): st.ts.pop(k, None)
			st.ts["node"] = 1
			if o is not None: self.y(st, "node", o)
			d = self.y(st, "top.depth")
			if ("top", "depth") in st.ts and d is not None: self.y(st, "depth", d)
	def finish(self, I, st, fr, ins):
		"""All of the current node has been dealt with."""
		if st.ts.get("failed"): return
		if st.ts.get("popped") and not st.ts.get("node"): self.report("walk", fr.fn, ins, "a node is removed from the stack that was not visited", st, key="removed")
		if not st.ts.get("node"): return
		self.settle(I, st)
		for n in ("zero", "one"):
			if ("pushed", n) in st.ts or ("none", n) in st.ts: continue
			self.report("walk", fr.fn, ins, "the enumeration goes on without the child %s of a node" % n, st, key="child " + n)
		if not st.ts.get("made") and ("none", "network") not in st.ts: self.report("walk", fr.fn, ins, "the enumeration goes on without the network of a node", st, key="network")
	def m_set_bit(self, I, fr, st, ins, args):
		if args[0][0] == "p" and args[0][1] == self.enum:
			self.count("bits set")
			d, i = self.y(st, "top.depth"), self.y(st, "top.i")
			ok = ("top", "depth") in st.ts and ("top", "i") in st.ts and self.same(I, st, args[2], i) and args[1][0] == "l"
			if ok and not self.same(I, st, args[1], lin_add(d, C(-1))) and not (self.same(I, st, args[1], C(0)) and I.le0(st, lin_add(d, C(-1)), 2)): ok = False
			if not ok: self.report("walk", fr.fn, ins, "the bit of the path that is set is not the one of the node on top of the stack", st, key="bit")
			st.ts["bitset"] = 1
		return [(st, None)]
	def m_maker(self, inner):
		def m(I, fr, st, ins, args):
			self.count("networks made")
			out, addr, prefix, rec = self.maker_args
			why = None
			net = self.y(st, "network")
			i = self.position(I, st, args[rec], "network_objects", self.netsize)
			d = self.y(st, "depth")
			if not st.ts.get("node") or ("in", "network") not in st.ts or net is None or i is None or not self.same(I, st, i, self.swap(I, st, net)): why = "is not the one of the node"
			elif args[addr][0] != "p" or args[addr][1] != self.enum or args[addr][2] != C(self.off(E, "network_address")[0]): why = "does not have the bits of the path as its address"
			elif d is None or not self.same(I, st, args[prefix], d): why = "does not have the depth of its node as its prefix"
			if why: self.report("leaf", fr.fn, ins, "the network returned %s" % why, st, key=why)
			res = []
			for s, v in inner(I, fr, st, ins, args):
				if v[0] == "l" and I.truth(s, v) is not False: s.ts["failed"] = 1
				else: s.ts["made"] = 1; s.ts["net"] = "new"
				res.append((s, v))
			return res
		return m
	def on_ret(self, I, st, fr, ins, v):
		self.count("returns checked")
		v = I.resolve(st, v)
		if v[0] == "l" and I.truth(st, v) is True: return
		w = st.mem.get((self.out, 0, 8))
		if w is not None and w[0] == "p" and I.is_nonnull(st, w):
			n = st.ts.get("net")
			if n == "no" or n == "new" and not self.same(I, st, self.filter, C(0)): self.report("unfiltered", fr.fn, ins, "a network is returned that does not match the filters, or was not compared with them", st, key=str(n))
		elif st.ts.get("net") in ("yes", "new"): self.report("dropped", fr.fn, ins, "a network that was found is not returned", st, key="not returned")
		else:
			n = self.get(I, st, self.enum, E, "network_stack_depth")
			if not I.le0(st, n, 2): self.report("walk", fr.fn, ins, "the enumeration ends although there are nodes left", st, key="end")
		self.finish(I, st, fr, ins)

def walking(prog, contracts, budget=100000):
	maker = "loc_network_new_from_database_v1"
	mf = prog.fn(maker)
	if mf is None: raise AnalysisError("%s is gone" % maker)
	out = []
	for f in prog.repo_fns():
		# (enumerator, network**, filter)
		if len(f.sig) != 4 or f.ret != 32 or own.struct_ptr(f.sig[1]) != E or own.struct_ptr(f.sig[2], 2) != "loc_network" or not isinstance(f.params[2]["ty"], int): continue
		_, s = walk.getters(prog)
		ck = Next(prog, contracts, f)
		o = [i for i, t in enumerate(mf.sig[1:]) if own.struct_ptr(t, 2)][0]
		addr = [i for i, t in enumerate(mf.sig[1:]) if "in6_addr" in t][0]
		prefix = [i for i, p in enumerate(mf.params) if isinstance(p["ty"], int)][0]
		rec = [i for i, t in enumerate(mf.sig[1:]) if "loc_database_network_v1" in t][0]
		ck.maker_args = (o, addr, prefix, rec)
		I = machine(prog, contracts, ck, budget)
		I.models[maker] = ck.m_maker(contracts.all_models()[maker])
		for g in finders(prog): I.models[g.name] = ck.m_match
		for n in ("loc_network_list_pop_first", "loc_network_list_pop"): I.models[n] = ck.m_pop
		for n in s: I.models[n] = ck.m_set_bit
		def setup(I2, st, args):
			ck.enum, ck.out, ck.filter = args[0][1], args[1][1], args[2]
			d = ck.get(I2, st, ck.enum, E, "db")
			ck.db = d[1]
			st.nonnull |= {d[1]}
			for sec in ("network_node_objects", "network_objects"): ck.get(I2, st, ck.db, "loc_database", sec + ".data")
			v = ck.get(I2, st, ck.enum, E, "networks_visited")
			if v[0] == "p": ck.visited.add(v[1])
			I2.keyregs.add(ck.out)
		I.entry(f, setup)
		out.append(ck)
	return out

MODES = {"loc_as": 2, "loc_country": 3}
FIELDS = {"loc_as": ("as_index", "as_objects.count"), "loc_country": ("country_index", "country_objects.count")}

class Sequence(Path):
	"""A function that returns the next record of one kind."""
	def m_fetch(self):
		def m(I, fr, st, ins, args):
			self.count("records fetched")
			if st.ts.get("fetched"):
				self.next(I, st, fr, ins, args[2])
				return []
			if args[0][0] != "p" or args[0][1] != self.db: self.report("sequence", fr.fn, ins, "a record of another database is returned", st, key="db")
			if not self.same(I, st, args[2], self.start): self.report("sequence", fr.fn, ins, "another record is fetched than the next one", st, key="first")
			st.ts["fetched"] = 1
			f2 = st.copy()
			I.write(st, args[1], 8, I.fresh_ptr(st, self.kind, nonnull=True))
			st.ts["obj"] = "new"
			f2.ts["failed"] = 1
			return [(st, C(0)), (f2, I.fresh(f2, 1, 1))]
		return m
	def next(self, I, st, fr, ins, i):
		if not self.same(I, st, i, lin_add(self.start, C(1))): self.report("sequence", fr.fn, ins, "the record after the one that was looked at is not the next one", st, key="next")
	def m_match(self, I, fr, st, ins, args):
		self.count("records matched")
		if not self.same(I, st, args[1], self.get(I, st, self.enum, E, "string")): return [(st.copy(), C(0)), (st, C(1))]
		f2 = st.copy()
		st.ts["obj"], f2.ts["obj"] = "yes", "no"
		return [(st, C(1)), (f2, C(0))]
	def on_call(self, I, st, fr, ins, name, args):
		if own.UNREF.match(name) and st.ts.get("obj") and own.struct_ptr((self.prog.fn(name).sig + [""])[1] if self.prog.fn(name) else "") == self.kind:
			self.count("records dropped")
			if st.ts["obj"] != "no": self.report("dropped", fr.fn, ins, "a record is dropped without having been found not to match", st, key=st.ts["obj"])
			st.ts.pop("obj")
	def on_ret(self, I, st, fr, ins, v):
		self.count("returns checked")
		v = I.resolve(st, v)
		if v[0] == "l" and I.truth(st, v) is True or st.ts.get("failed"): return
		w = st.mem.get((self.out, 0, 8))
		i = self.get(I, st, self.enum, E, self.index)
		if w is not None and w[0] == "p" and I.is_nonnull(st, w):
			if st.ts.get("obj") == "no" or self.kind == "loc_as" and st.ts.get("obj") == "new": self.report("unfiltered", fr.fn, ins, "a record is returned that does not match, or was not matched", st, key="unfiltered")
			elif not st.ts.get("obj"): self.report("unfiltered", fr.fn, ins, "something is returned that was not fetched", st, key="unfetched")
			self.next(I, st, fr, ins, i)
		elif st.ts.get("obj") in ("yes", "new"): self.report("dropped", fr.fn, ins, "a record that was found is not returned", st, key="not returned")
		elif self.mode == MODES[self.kind]:
			last = lin_add(self.start, C(1)) if st.ts.get("fetched") else self.start
			if not I.le0(st, lin_add(self.count_of, last, -1), 4): self.report("sequence", fr.fn, ins, "the enumeration ends although there are records left", st, key="end")

def sequences(prog, contracts, budget=50000):
	out = []
	for kind in MODES:
		fetch = [f for f in prog.repo_fns() if len(f.sig) == 4 and own.struct_ptr(f.sig[1]) == "loc_database" and own.struct_ptr(f.sig[2], 2) == kind and isinstance(f.params[2]["ty"], int) and f.params[2]["ty"] == 64]
		for f in prog.repo_fns():
			if len(f.sig) != 3 or f.ret != 32 or own.struct_ptr(f.sig[1]) != E or own.struct_ptr(f.sig[2], 2) != kind: continue
			for mode in (1, 2, 3, 4):
				ck = Sequence(prog, contracts, f)
				ck.kind, ck.mode = kind, mode
				ck.index, cnt = FIELDS[kind]
				I = machine(prog, contracts, ck, budget)
				for g in fetch: I.models[g.name] = ck.m_fetch()
				if kind == "loc_as": I.models["loc_as_match_string"] = ck.m_match
				def setup(I2, st, args):
					ck.enum, ck.out = args[0][1], args[1][1]
					d = ck.get(I2, st, ck.enum, E, "db")
					ck.db = d[1]
					st.nonnull |= {d[1]}
					o, z = ck.off(E, "mode")
					I2.write(st, ("p", ck.enum, C(o)), z, C(mode))
					ck.start = ck.get(I2, st, ck.enum, E, ck.index)
					ck.count_of = ck.get(I2, st, ck.db, "loc_database", cnt)
					I2.keyregs.add(ck.out)
				I.entry(f, setup)
				if bool(ck.stats.get("records fetched")) != (mode == MODES[kind]):
					ck.report("mode", f, None, "records are returned by an enumeration of something else" if mode != MODES[kind] else "no record is ever returned", None, key=str(mode))
				out.append(ck)
	return out

class Flat(Path):
	"""A function that returns the next network, made from what the walk returns."""
	def m_walk(self, I, fr, st, ins, args):
		self.count("calls of the walk")
		own_out = args[1][0] == "p" and args[1][1] == self.out
		flt = I.truth(st, I.resolve(st, args[2])) if args[2][0] == "l" else None
		if own_out and flt is not True: self.report("unfiltered", fr.fn, ins, "a network is returned that was not matched against the filters", st, key="unfiltered")
		if st.ts.get("sub") in ("in", "out", "subnet?") and not own_out: self.report("dropped", fr.fn, ins, "a network is forgotten when the next one is fetched", st, key="forgotten")
		if own_out and st.ts.get("net"): return self.over(I, fr, st, ins)
		res = []
		for what in ("some", "none", "failed"):
			s = st.copy()
			if what == "failed":
				s.ts["failed"] = 1
				res.append((s, I.fresh(s, 1, 1)))
				continue
			p = I.fresh_ptr(s, "loc_network", nonnull=True) if what == "some" else NULL
			I.write(s, args[1], 8, p)
			if own_out: s.ts["net"] = what
			else:
				s.ts["sub"] = "new" if what == "some" else None
				s.ts["subfilter"] = flt
			res.append((s, C(0)))
		return res
	def over(self, I, fr, st, ins):
		self.lose(st, fr, ins)
		return []
	def lose(self, st, fr, ins):
		if st.ts.get("lost") and not st.ts.get("failed"): self.report("dropped", fr.fn, ins, st.ts["lost"], st, key=st.ts["lost"])
	def which(self, I, st, p):
		for n in ("subnets", "stack"):
			if self.same(I, st, p, self.get(I, st, self.enum, E, n)): return n
		return None
	def is_out(self, I, st, p): return self.same(I, st, p, st.mem.get((self.out, 0, 8)))
	def m_subnet(self, I, fr, st, ins, args):
		if not st.ts.get("sub"): return [(st.copy(), C(0)), (st, C(1))]
		self.count("subnets tested")
		if not self.is_out(I, st, args[0]) or self.is_out(I, st, args[1]): self.report("flatten", fr.fn, ins, "it is not tested whether the next network lies in the one to return", st, key="subnet")
		if st.ts.get("subfilter") is not False: self.report("flatten", fr.fn, ins, "subnets that do not match the filters are not cut out", st, key="filter")
		f2 = st.copy()
		st.ts["sub"], f2.ts["sub"] = "in", "out"
		return [(st, C(1)), (f2, C(0))]
	def m_push(self, I, fr, st, ins, args):
		w = self.which(I, st, args[0])
		if st.ts.get("sub") in ("in", "out", "new"):
			self.count("networks kept")
			want = {"in": "subnets", "out": "stack"}.get(st.ts["sub"])
			if want != w: self.report("flatten", fr.fn, ins, "a network that %s is put on another list" % ("lies in the one to return" if st.ts["sub"] == "in" else "does not lie in the one to return" if st.ts["sub"] == "out" else "was not tested"), st, key=str(want))
		f2 = st.copy()
		st.ts["sub"] = "kept"
		f2.ts["failed"] = 1
		return [(st, C(0)), (f2, I.fresh(f2, 1, 1))]
	def m_exclude(self, inner):
		def m(I, fr, st, ins, args):
			self.count("lists cut out")
			if not self.is_out(I, st, args[0]) or self.which(I, st, args[1]) != "subnets": self.report("flatten", fr.fn, ins, "what is returned is not the network without its subnets", st, key="exclude")
			res = []
			for s, v in inner(I, fr, st, ins, args):
				if v[0] == "p" and v != NULL:
					self.excl = v
					s.mem[(("Y", "excl"), 0, 8)] = v
					s.meta[("Y", "excl")] = {"kind": "Z", "size": C(8)}
					s.ts["excl"] = "made"
				else: s.ts["failed"] = 1
				res.append((s, v))
			return res
		return m
	def m_merge(self, I, fr, st, ins, args):
		if self.which(I, st, args[0]) == "stack":
			self.count("lists merged")
			if self.which(I, st, args[1]) == "subnets": st.ts["subnets"] = "merged"
			elif st.ts.get("excl") == "made" and self.same(I, st, args[1], st.mem.get((("Y", "excl"), 0, 8))): st.ts["excl"] = "merged"
		f2 = st.copy()
		f2.ts["failed"] = 1
		return [(st, C(0)), (f2, I.fresh(f2, 1, 1))]
	def m_empty(self, I, fr, st, ins, args):
		f2 = st.copy()
		if self.which(I, st, args[0]) == "subnets": st.ts["subnets"] = "empty"
		return [(st, C(1)), (f2, C(0))]
	def m_size(self, I, fr, st, ins, args): return [(st, I.fresh(st, 0, 1 << 20))]
	def m_clear(self, I, fr, st, ins, args):
		if self.flat and self.which(I, st, args[0]) == "subnets" and st.ts.get("subnets") not in ("merged", "empty") and st.ts.get("sub", 0) != 0 and not st.ts.get("failed"):
			st.ts["lost"] = "subnets are dropped"
		return [(st, None)]
	def on_call(self, I, st, fr, ins, name, args):
		f = self.prog.fn(name)
		if not own.UNREF.match(name) or not f or own.struct_ptr((f.sig + [""])[1]) != "loc_network" or not self.flat or st.ts.get("failed"): return
		if self.is_out(I, st, args[0]):
			self.count("networks dropped")
			if st.ts.get("excl") != "merged" or st.ts.get("subnets") != "merged": st.ts["lost"] = "a network is dropped without what is left of it and its subnets having been kept"
		elif st.ts.get("sub") in ("new", "in", "out"):
			st.ts["lost"] = "a network is dropped that was not returned yet"
	def m_self(self, I, fr, st, ins, args):
		if not st.ts.get("net"): return None
		self.lose(st, fr, ins)
		if st.ts.get("excl") != "merged" and not st.ts.get("failed"): self.report("dropped", fr.fn, ins, "a network is skipped", st, key="skipped")
		return []
	def on_ret(self, I, st, fr, ins, v):
		self.count("returns checked")
		v = I.resolve(st, v)
		if v[0] == "l" and I.truth(st, v) is not False or st.ts.get("failed") or not self.flat: return
		self.lose(st, fr, ins)
		w = st.mem.get((self.out, 0, 8))
		if st.ts.get("net") == "some" and w == NULL: self.report("dropped", fr.fn, ins, "a network that was found is not returned", st, key="not returned")
		if st.ts.get("net") == "some" and st.ts.get("sub", 0) != 0 and st.ts.get("subnets") != "empty": self.report("flatten", fr.fn, ins, "a network is returned with its subnets", st, key="with subnets")
		if st.ts.get("sub") in ("new", "in", "out"): self.report("dropped", fr.fn, ins, "a network is forgotten", st, key="forgotten")

def reaches(prog, f, names):
	todo, seen = [f], set()
	while todo:
		g = todo.pop()
		if g in seen: continue
		seen.add(g)
		for i in g.calls():
			n = i.d.get("fn")
			if n in names: return True
			h = prog.lookup(g.unit, n)
			if h is not None and h.internal: todo.append(h)
	return False

def walks(prog):
	return [f for f in prog.repo_fns() if len(f.sig) == 4 and f.ret == 32 and own.struct_ptr(f.sig[1]) == E and own.struct_ptr(f.sig[2], 2) == "loc_network" and isinstance(f.params[2]["ty"], int)]

class Dispatch(Path):
	"""The function of the interface: which enumeration it runs."""
	def mark(self, what):
		def m(I, fr, st, ins, args):
			self.count("enumerations run")
			flt = what != "walk" or I.truth(st, I.resolve(st, args[2])) is True
			if args[0][0] != "p" or args[0][1] != self.enum or args[1][0] != "p" or args[1][1] != self.out or not flt: self.report("unfiltered", fr.fn, ins, "networks are returned without having been matched against the filters", st, key=what)
			st.ts["ran"] = what
			return [(st, I.fresh(st, 0, 1))]
		return m
	def on_ret(self, I, st, fr, ins, v):
		self.count("returns checked")
		want = {1: "flat" if self.flatten else "walk", 4: "bogons"}.get(self.mode)
		if st.ts.get("ran") != want: self.report("mode", fr.fn, ins, "an enumeration of %s runs another search" % ("networks" if self.mode == 1 else "bogons" if self.mode == 4 else "something else"), st, key="%s %s" % (self.mode, self.flatten))

def flattening(prog, contracts, budget=60000):
	out = []
	M = contracts.all_models()
	ws = walks(prog)
	names = {w.name for w in ws}
	fs = [f for f in prog.repo_fns() if len(f.sig) == 3 and f.ret == 32 and own.struct_ptr(f.sig[1]) == E and own.struct_ptr(f.sig[2], 2) == "loc_network" and reaches(prog, f, names)]
	inner = {f.name: "flat" if reaches(prog, f, {"loc_network_exclude_list"}) else "bogons" for f in fs if f.internal}
	for f in fs:
		if not f.internal:
			if sorted(inner.values()) != ["bogons", "flat"]: continue
			for mode in (1, 2, 3, 4):
				for flatten in (0, 1):
					ck = Dispatch(prog, contracts, f)
					ck.mode, ck.flatten = mode, flatten
					I = machine(prog, contracts, ck, budget)
					for n in names: I.models[n] = ck.mark("walk")
					for n, k in inner.items(): I.models[n] = ck.mark(k)
					def setup(I2, st, args):
						ck.enum, ck.out = args[0][1], args[1][1]
						for n, v in (("mode", mode), ("flatten", flatten)):
							o, z = ck.off(E, n)
							I2.write(st, ("p", ck.enum, C(o)), z, C(v))
					I.entry(f, setup)
					out.append(ck)
			continue
		ck = Flat(prog, contracts, f)
		ck.flat = inner[f.name] == "flat"
		I = machine(prog, contracts, ck, budget)
		for n in names: I.models[n] = ck.m_walk
		I.models["loc_network_is_subnet"] = ck.m_subnet
		I.models["loc_network_list_push"] = ck.m_push
		I.models["loc_network_list_merge"] = ck.m_merge
		I.models["loc_network_list_empty"] = ck.m_empty
		I.models["loc_network_list_size"] = ck.m_size
		I.models["loc_network_list_clear"] = ck.m_clear
		if "loc_network_exclude_list" in M: I.models["loc_network_exclude_list"] = ck.m_exclude(M["loc_network_exclude_list"])
		if any(i.d.get("fn") == f.name for i in f.calls()): I.models[f.name] = ck.m_self
		def setup(I2, st, args):
			ck.enum, ck.out = args[0][1], args[1][1]
			for n in ("subnets", "stack"): ck.get(I2, st, ck.enum, E, n)
			I2.keyregs.add(ck.out)
		I.entry(f, setup)
		out.append(ck)
	return out

class Setter(Path):
	def on_ret(self, I, st, fr, ins, v):
		v = I.resolve(st, v)
		if v[0] == "l" and I.truth(st, v) is not False: return
		self.count("filters set")
		x = self.get(I, st, self.enum, E, self.field)
		if not self.same(I, st, x, self.arg) and not (self.field == "flags" and self.same(I, st, x, C(5))): self.report("filter", fr.fn, ins, "the filter that was set is not the one that is matched", st, key=self.field)

def setters(prog, contracts, budget=20000):
	out = []
	for n, field in (("loc_database_enumerator_set_countries", "countries"), ("loc_database_enumerator_set_asns", "asns"), ("loc_database_enumerator_set_family", "family"), ("loc_database_enumerator_set_flag", "flags")):
		f = prog.fn(n)
		if f is None: raise AnalysisError("%s is gone" % n)
		ck = Setter(prog, contracts, f)
		ck.field = field
		I = machine(prog, contracts, ck, budget)
		def setup(I2, st, args):
			if field == "flags":
				o, z = ck.off(E, field)
				I2.write(st, ("p", args[0][1], C(o)), z, C(1))
				args[1] = C(4)
			ck.enum, ck.arg = args[0][1], args[1]
		I.entry(f, setup)
		out.append(ck)
	return out

class Start(Path):
	"""The function that makes an enumeration."""
	def on_ret(self, I, st, fr, ins, v):
		v = I.resolve(st, v)
		if v[0] == "l" and I.truth(st, v) is not False: return
		e = st.mem.get((self.out, 0, 8))
		if e is None or e[0] != "p": return
		self.count("enumerations made")
		g = lambda n: self.get(I, st, e[1], E, n)
		o, z = self.off(E, "network_stack")
		size = self.prog.structs["loc_node_stack"]["size"]
		why = None
		d = I.resolve(st, g("network_stack_depth"))
		if not is_const(d) or d[1] < 1: why = "does not start at the root of the tree"
		else:
			for n, fo, fz, t in self.prog.structs["loc_node_stack"]["fields"]:
				x = I.resolve(st, I.read(st, ("p", e[1], C(o + d[1] * size + fo)), fz, 8 * fz))
				if x != C(0): why = "does not start at the root of the tree"
		if why is None and d != C(1): why = "starts with more than the root of the tree"
		if why is None and not self.same(I, st, g("mode"), self.mode): why = "is not of the kind that was asked for"
		if why is None and (I.truth(st, I.resolve(st, g("flatten"))) is not self.flat): why = "is flattened although this was not asked for, or is not"
		if why is None and g("db") != self.db: why = "is of another database"
		for n in ("family", "flags", "as_index", "country_index"):
			if why is None and I.resolve(st, g(n)) != C(0): why = "does not start at the first record, or has a filter nobody set"
		for n in ("countries", "asns", "string"):
			if why is None and I.resolve(st, g(n)) != NULL: why = "has a filter nobody set"
		if why: self.report("start", fr.fn, ins, "a new enumeration %s" % why, st, key=why)

def starts(prog, contracts, budget=20000):
	f = prog.fn("loc_database_enumerator_new")
	if f is None: raise AnalysisError("loc_database_enumerator_new is gone")
	out = []
	for flat in (0, 1):
		ck = Start(prog, contracts, f)
		I = machine(prog, contracts, ck, budget)
		def setup(I2, st, args):
			args[3] = C(flat)
			ck.out, ck.mode, ck.db, ck.flat = args[0][1], args[2], args[1], bool(flat)
			I2.keyregs.add(ck.out)
		I.entry(f, setup)
		out.append(ck)
	return out

SEEN, SEENB = ("Z", "seen"), ("Z", "seen bytes")
class Contains(Path):
	"""Whether an element is in a list: all elements are compared before it is said not to be."""
	def key(self, I, st):
		# known before states are joined
		if not st.ts.get("all"):
			size = self.get(I, st, self.list, self.lty, "size")
			for n, k in ((self.cell(st, SEEN), 1), (self.cell(st, SEENB), 8)):
				if n is not None and I.le0(st, lin_add(lin_mul(size, k), n, -1), 4): st.ts["all"] = 1
		return st.ts.get("all")
	def on_load(self, I, st, fr, ins, ptr, size, v):
		if ptr[0] != "p" or size != 8: return
		e = self.get(I, st, self.list, self.lty, "elements")
		if e[0] == "p" and ptr[1] == e[1] and ptr[2][0] == "l" and v[0] == "p":
			d = lin_add(ptr[2], e[2], -1)
			if d[0] == "l":
				i = ("l", d[1] // 8, tuple((s, c // 8) for s, c in d[2])) if not d[1] % 8 and not any(c % 8 for _, c in d[2]) else None
				self.cell(st, ("Z", "index"), i)
				self.cell(st, ("Z", "bytes"), d)
				st.mem[(("Y", "element"), 0, 8)] = v
				st.meta[("Y", "element")] = {"kind": "Z", "size": C(8)}
				st.ts["element"] = 1
	def m_cmp(self, I, fr, st, ins, args):
		self.count("comparisons")
		el = st.mem.get((("Y", "element"), 0, 8)) if st.ts.get("element") else None
		i, n, b, m = self.cell(st, ("Z", "index")), self.cell(st, SEEN), self.cell(st, ("Z", "bytes")), self.cell(st, SEENB)
		if el is None or el not in args or not any(a[0] == "p" and a[1] == self.needle for a in args) or b is None:
			return [(st.copy(), C(0)), (st, I.fresh(st, 1, 1))]
		if not st.ts.get("first") and not self.same(I, st, b, C(0)):
			size = self.get(I, st, self.list, self.lty, "size")
			if self.same(I, st, i, lin_add(size, C(-1))) or self.same(I, st, b, lin_mul(lin_add(size, C(-1)), 8)): st.ts["down"] = 1
		st.ts["first"] = 1
		if not st.ts.get("down"):
			if self.same(I, st, i, n) or self.same(I, st, b, m):
				self.cell(st, SEEN, lin_add(n, C(1)) if n is not None else None)
				self.cell(st, SEENB, lin_add(m, C(8)) if m is not None else None)
			elif not st.ts.get("hit"): st.ts["skipped"] = 1
		eq = st.copy()
		eq.ts["hit"] = 1
		neg = st.copy()
		return [(eq, C(0)), (neg, I.fresh(neg, -1, -1)), (st, I.fresh(st, 1, 1))]
	def on_ret(self, I, st, fr, ins, v):
		self.count("returns checked")
		t = I.truth(st, I.resolve(st, v))
		if st.ts.get("hit"):
			if t is not True: self.report("contains", fr.fn, ins, "an element that is in the list is not found", st, key="hit")
			return
		if t is not False: self.report("contains", fr.fn, ins, "an element is found that is not in the list", st, key="miss")
		elif not st.ts.get("down"):
			self.key(I, st)
			if st.ts.get("skipped") or not st.ts.get("all"): self.report("contains", fr.fn, ins, "an element is not found although not all of the list was compared with it", st, key="all")

class ContainsKey(Path):
	def m_new(self, inner):
		def m(I, fr, st, ins, args):
			k = [i for i, a in enumerate(args) if a == self.wanted]
			res = []
			for s, v in inner(I, fr, st, ins, args):
				if v[0] == "l" and I.truth(s, I.resolve(s, v)) is False and k: s.ts["made"] = 1
				else: s.ts["failed"] = 1
				res.append((s, v))
			return res
		return m
	def m_contains(self, I, fr, st, ins, args):
		self.count("lists searched")
		if not st.ts.get("made") or args[0][0] != "p" or args[0][1] != self.list: return [(st.copy(), C(0)), (st, C(1))]
		f2 = st.copy()
		st.ts["hit"], f2.ts["hit"] = "yes", "no"
		return [(st, C(1)), (f2, C(0))]
	def on_ret(self, I, st, fr, ins, v):
		self.count("returns checked")
		if st.ts.get("failed"): return
		t = I.truth(st, I.resolve(st, v))
		if t is not {"yes": True, "no": False}.get(st.ts.get("hit")): self.report("contains", fr.fn, ins, "whether the list contains something is not what is returned", st, key="key")

class Truth(Path):
	"""A function whose result follows from the case it is in."""
	def on_ret(self, I, st, fr, ins, v):
		if getattr(self, "skip", None) and self.skip(st): return
		self.count("cases of helpers")
		w = self.want(st) if callable(self.want) else self.want
		if w is not None and I.truth(st, I.resolve(st, v)) is not w: self.report("contains", fr.fn, ins, self.msg, st, key=self.msg)

def helpers(prog, contracts, budget=20000):
	out = []
	M = contracts.all_models()
	def run(f, ck, setup, models={}):
		I = machine(prog, contracts, ck, budget)
		for n, m in models.items(): I.models[n] = m
		I.models.pop(f.name, None)
		I.entry(f, setup)
		out.append(ck)
	for kind, field in (("as", "number"), ("country", "code")):
		lty, ty = "loc_%s_list" % kind, "loc_" + kind
		f, g, h, c, e = (prog.fn(n) for n in (lty + "_contains", lty + "_contains_" + field, ty + "_new", ty + "_cmp", lty + "_empty"))
		if None in (f, g, h, c, e): raise AnalysisError("functions of %s are gone" % lty)
		ck = Contains(prog, contracts, f)
		def setup(I, st, args):
			ck.list, ck.needle, ck.lty = args[0][1], args[1][1], lty
			ck.cell(st, SEEN, C(0))
			ck.cell(st, SEENB, C(0))
			I.field_range[(lty, "size")] = (0, 1 << 31)
		run(f, ck, setup, {c.name: ck.m_cmp})
		k = ContainsKey(prog, contracts, g)
		def setup2(I, st, args): k.list, k.wanted = args[0][1], args[1]
		run(g, k, setup2, {h.name: k.m_new(M[h.name]), f.name: k.m_contains})
		for n in (0, 1):
			t = Truth(prog, contracts, e)
			t.want, t.msg = not n, "a list is said to be empty that is not, or the other way round"
			def setup3(I, st, args):
				o, z = t.off(lty, "size")
				I.write(st, ("p", args[0][1], C(o)), z, I.fresh(st, 1, 1 << 20) if n else C(0))
			run(e, t, setup3)
		if kind == "as":
			for rel in (-1, 0, 1):
				t = Truth(prog, contracts, c)
				t.want, t.msg = rel != 0, "ASes with different numbers are the same, or the other way round"
				def setup4(I, st, args):
					a, b = (t.get(I, st, x[1], ty, "number") for x in args)
					d = lin_add(a, b, -1)
					if rel <= 0: I.add_le(st, lin_add(d, C(-rel)))
					if rel >= 0: I.add_le(st, lin_add(lin_mul(d, -1), C(rel)))
				run(c, t, setup4)
		else:
			t = Truth(prog, contracts, c)
			def m_str(I, fr, st, ins, args):
				t.count("codes compared")
				o = t.off(ty, "code")[0]
				ok = all(a[0] == "p" and a[1] in t.objs and a[2] == C(o) for a in args[:2]) and args[0][1] != args[1][1] and (len(args) < 3 or is_const(args[2]) and 2 <= args[2][1] <= 3)
				if not ok: return [(st, I.fresh(st, -1, 1))]
				f2 = st.copy()
				st.ts["eq"], f2.ts["eq"] = 1, 0
				return [(st, C(0)), (f2, I.fresh(f2, 1, 1))]
			t.want, t.msg = lambda st: {1: False, 0: True}.get(st.ts.get("eq"), "neither"), "countries with different codes are the same, or the other way round"
			t.skip = lambda st: "eq" not in st.ts and not t.stats.get("codes compared")
			def setup5(I, st, args): t.objs = [a[1] for a in args]
			run(c, t, setup5, {n: m_str for n in ("strcmp", "strncmp", "memcmp", "bcmp", "strcasecmp", "strncasecmp")})
			if not t.stats.get("cases of helpers"): pass
	# flags
	f = prog.fn("loc_network_has_flag")
	if f is None: raise AnalysisError("loc_network_has_flag is gone")
	for a, b in itertools.product([1 << i for i in range(8)] + [0, 6, 9, 255], repeat=2):
		t = Truth(prog, contracts, f)
		t.want, t.msg = bool(a & b), "a network has a flag that was not set, or the other way round"
		def setup6(I, st, args):
			o, z = t.off("loc_network", "flags")
			I.write(st, ("p", args[0][1], C(o)), z, C(a))
			args[1] = C(b)
		run(f, t, setup6)
	f = prog.fn("loc_as_match_string")
	if f is not None:
		for null in (0, 1):
			t = Truth(prog, contracts, f)
			def m_find(I, fr, st, ins, args):
				t.count("names searched")
				if args[0] != t.name or args[1] != t.string: return [(st.copy(), NULL), (st, I.fresh_ptr(st, "", nonnull=True))]
				f2 = st.copy()
				st.ts["hit"], f2.ts["hit"] = True, False
				return [(st, args[0]), (f2, NULL)]
			t.want, t.msg = (lambda st: True) if null else (lambda st: st.ts.get("hit", "no")), "an AS matches a search that does not occur in its name, or the other way round"
			def setup7(I, st, args):
				if null: args[1] = NULL
				else: st.nonnull |= {args[1][1]}
				t.name, t.string = t.get(I, st, args[0][1], "loc_as", "name"), args[1]
				st.nonnull |= {t.name[1]}
			run(f, t, setup7, {"strcasestr": m_find, "strstr": m_find})
	return out
