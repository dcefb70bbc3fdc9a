"""Cleaning up the tree of networks before it is written.
  subnet       a network encloses another one exactly if all addresses of that one are its own
  properties   two networks compare as equal only if country, AS and flags are all the same
  merge        two networks are joined only if they are the two halves of the joint one, with the same properties, which the joint one gets
  duplicate    a network is removed as redundant only if the closest network around it has the same properties
  replaced     joined networks are removed only after the joint one is in the tree
  node         a node is removed, or marked as deleted, only without a network and without children in use; it is in use again once it is on a path
"""
import itertools
from absint import *
import own, bounds, walk
from walk import Path, machine

N, T, TN, L = "loc_network", "loc_network_tree", "loc_network_tree_node", "loc_network_list"

def put(ck, I, st, obj, struct, field, v):
	o, z = ck.off(struct, field)
	I.write(st, ("p", obj, C(o)), z, v)

def obj(st, name, ty):
	st.meta[name] = {"kind": "D", "ty": ty, "size": None}
	st.nonnull |= {name}
	return ("p", name, C(0))

def fork(I, st, *results):
	"""States with the given results and notes."""
	out = []
	for k, (v, notes) in enumerate(results):
		s = st if k == len(results) - 1 else st.copy()
		s.ts.update(notes)
		out.append((s, v))
	return out

class Subnet(Path):
	def m_cmp(self, I, fr, st, ins, args):
		self.count("comparisons")
		def which(p):
			if p[0] != "p" or p[1] not in self.nets: return None
			for n in ("first", "last"):
				if p[2] == C(self.off(N, n + "_address")[0]): return self.nets.index(p[1]), n
		a, b = which(args[0]), which(args[1])
		if a is None or b is None or a[1] != b[1] or a[0] == b[0]: return [(st, I.fresh(st, -1, 1))]
		c = self.case[1 + (a[1] == "last")] * (1 if a[0] == 0 else -1)
		return [(st, C(c))]
	def on_ret(self, I, st, fr, ins, v):
		self.count("cases of networks in networks")
		want = self.case[1] <= 0 and self.case[2] >= 0
		if I.truth(st, I.resolve(st, v)) is not want: self.report("subnet", fr.fn, ins, "a network that lies %s another one is said to lie %s it" % (("in", "outside of") if want else ("outside of, or around,", "in")), st, key="%d%d%d" % self.case)

SUBNETS = ((0, 0, 0), (-1, -1, 0), (-1, 0, 1), (-1, -1, 1), (1, 1, 0), (1, 0, -1), (1, 1, -1)) + tuple((p, d, d) for p in (-1, 0, 1) for d in (-1, 1))

def subnets(prog, contracts, budget):
	f = prog.fn("loc_network_is_subnet")
	out = []
	for case in SUBNETS if f else ():
		ck = Subnet(prog, contracts, f)
		ck.case = case
		I = machine(prog, contracts, ck, budget)
		I.models["loc_address_cmp"] = I.models["memcmp"] = ck.m_cmp
		def setup(I2, st, args):
			ck.nets = [args[0][1], args[1][1]]
			p = I2.fresh(st, 1, 126)
			put(ck, I2, st, args[0][1], N, "prefix", p)
			put(ck, I2, st, args[1][1], N, "prefix", lin_add(p, C(-case[0])))
		I.entry(f, setup)
		out.append(ck)
	return out

class Properties(Path):
	def m_cmp(self, I, fr, st, ins, args):
		"""Comparison of bytes that are known."""
		self.count("comparisons")
		n = args[2][1] if len(args) > 2 and is_const(args[2]) else 2
		for i in range(min(n, 2)):
			a, b = [I.read(st, ("p", x[1], lin_add(x[2], C(i))), 1, 8) for x in args[:2]]
			if not is_const(a) or not is_const(b): return [(st, I.fresh(st, -1, 1))]
			if a != b: return [(st, C(-1 if a[1] < b[1] else 1))]
		return [(st, C(0))]
	def on_ret(self, I, st, fr, ins, v):
		self.count("combinations of properties")
		t = I.truth(st, I.resolve(st, v))
		d = [n for n, c in zip(("country", "AS", "flags"), self.case) if c]
		if bool(d) and t is not True: self.report("properties", fr.fn, ins, "networks with another %s may be taken for the same" % " and ".join(d), st, key=",".join(d))

COUNTRIES = {0: "DE", 1: "DA", 2: "AE"}
def properties(prog, contracts, budget):
	f = prog.fn("loc_network_properties_cmp")
	out = []
	for case in itertools.product((0, 1, 2), (0, -1, 1), (0, -1, 1)) if f else ():
		ck = Properties(prog, contracts, f)
		ck.case = case
		I = machine(prog, contracts, ck, budget)
		for n in ("memcmp", "bcmp", "strncmp", "strcmp"): I.models[n] = ck.m_cmp
		if prog.fn("loc_country_code_cmp") is None or not prog.fn("loc_country_code_cmp").blocks: I.models["loc_country_code_cmp"] = ck.m_cmp
		else: I.models.pop("loc_country_code_cmp", None)
		def setup(I2, st, args):
			for k, a in enumerate(args):
				o, z = ck.off(N, "country_code")
				for i, c in enumerate(COUNTRIES[case[0] if k else 0] + "\0"): I2.write(st, ("p", a[1], C(o + i)), 1, C(ord(c)))
			for n, c, hi in (("asn", case[1], 1 << 30), ("flags", case[2], 0x7ff0)):
				x = I2.fresh(st, 1, hi)
				y = x if not c else lin_add(x, I2.fresh(st, 1, 1000) if c > 0 else I2.fresh(st, -1, -1))
				put(ck, I2, st, args[0][1], N, n, x)
				put(ck, I2, st, args[1][1], N, n, y)
		I.entry(f, setup)
		out.append(ck)
	return out

class Merge(Path):
	"""Joining of two networks."""
	def is_field(self, p, o, f): return p[0] == "p" and p[1] == o and p[2] == C(self.off(N, f)[0])
	def halves(self, st, p):
		if p[0] != "p" or not is_const(p[2]): return None
		h = tuple(st.mem.get((p[1], p[2][1] + 8 * i, 8)) for i in (0, 1))
		return None if None in h else h
	def m_length(self, I, fr, st, ins, args):
		self.count("lengths")
		if not self.is_field(args[0], self.n1, "first_address"): return [(st, I.fresh(st, 0, 128))]
		if self.case["aligned"]: return [(st, lin_add(self.prefix, self.less, -1))]
		return [(st, self.prefix)]
	def m_bit(self, I, fr, st, ins, args):
		self.count("bits")
		if self.is_field(args[0], self.n1, "first_address") and self.same(I, st, args[1], lin_add(self.raw, C(-1))): return [(st, C(0 if self.case["aligned"] else 1))]
		return fork(I, st, (C(0), {}), (C(1), {}))
	def m_increment(self, I, fr, st, ins, args):
		self.count("increments")
		h = self.halves(st, args[0])
		new = self.after if h == self.last else tuple(I.fresh(st, 0, 1 << 60) for _ in "ab")
		for i in (0, 1): I.write(st, ("p", args[0][1], lin_add(args[0][2], C(8 * i))), 8, new[i])
		return [(st, None)]
	def m_cmp(self, I, fr, st, ins, args):
		self.count("comparisons")
		h = [self.halves(st, a) for a in args[:2]]
		if h in ([self.after, self.first2], [self.first2, self.after]):
			return [(st, C(0))] if self.case["neighbours"] else fork(I, st, (C(-1), {}), (C(1), {}))
		return fork(I, st, (C(-1), {}), (C(0), {}), (C(1), {}))
	def m_props(self, I, fr, st, ins, args):
		self.count("comparisons")
		if sorted(a[1] for a in args) == sorted((self.n1, self.n2)) and all(a[2] == C(0) for a in args) and self.case["properties"]: return [(st, C(0))]
		if all(a[2] == C(0) for a in args) and sorted(a[1] for a in args) == sorted((self.n1, self.n2)): return fork(I, st, (C(-1), {}), (C(1), {}))
		return fork(I, st, (C(-1), {}), (C(0), {}), (C(1), {}))
	def m_copy(self, I, fr, st, ins, args):
		copy_mem(I, st, args[0], args[1], 2)
		return [(st, None)]
	def m_new(self, inner):
		def m(I, fr, st, ins, args):
			self.count("networks made")
			why = None
			if not (self.is_field(args[2], self.n1, "first_address") or self.is_field(args[2], self.n2, "first_address") or self.halves(st, args[2]) in (self.first1, self.first2)): why = "address"
			elif not self.same(I, st, args[3], lin_add(self.prefix, C(-1))): why = "prefix"
			out, args = [], list(args)
			args[2] = obj(st, ("address",), "struct in6_addr")
			for s, v in inner(I, fr, st, ins, args):
				if v[0] == "l" and I.truth(s, v) is not True: s.ts["new"] = why or "right"
				out.append((s, v))
			return out
		return m
	def on_ret(self, I, st, fr, ins, v):
		self.count("cases of joining")
		v = I.resolve(st, v)
		if v[0] == "l" and I.truth(st, v) is True: return
		w = st.mem.get((self.out, 0, 8))
		if w is None or w == NULL: return
		no = [n for n in ("family", "prefix", "aligned", "neighbours", "properties") if not self.case[n]]
		if self.case["zero"]: no.append("zero")
		if no:
			self.report("merge", fr.fn, ins, "networks are joined although %s" % {"family": "their families differ", "prefix": "their prefixes differ", "aligned": "they are not the halves of one", "neighbours": "they are not next to each other", "properties": "their properties differ", "zero": "there is no shorter prefix"}[no[0]], st, key=no[0])
			return
		if w[0] != "p": return
		if st.ts.get("new") != "right": self.report("merge", fr.fn, ins, "the joint network does not have the %s of the two" % st.ts.get("new", "address"), st, key="new"); return
		for n in ("asn", "flags"):
			if not self.same(I, st, self.get(I, st, w[1], N, n), self.get(I, st, self.n1, N, n)): self.report("merge", fr.fn, ins, "the joint network does not get the %s of the two" % n, st, key=n)
		o, z = self.off(N, "country_code")
		for i in (0, 1):
			if I.read(st, ("p", w[1], C(o + i)), 1, 8) != C(ord("DE"[i])): self.report("merge", fr.fn, ins, "the joint network does not get the country of the two", st, key="country"); break

def merging(prog, contracts, budget):
	f = prog.fn("loc_network_merge")
	if f is None: return []
	out = []
	good = dict(family=1, prefix=1, zero=0, aligned=1, neighbours=1, properties=1)
	cases = [good] + [dict(good, **{n: 1 - good[n]}) for n in good] + [dict(good, family=0, neighbours=1, prefix=0)]
	for fam, base in ((10, 0), (2, 96)):
		for case in cases:
			for way in (-1, 1) if not case["prefix"] else (0,):
				ck = Merge(prog, contracts, f)
				ck.case = case
				I = machine(prog, contracts, ck, budget)
				I.models.pop("loc_network_merge", None)
				I.models["loc_country_code_copy"] = ck.m_copy
				I.models["loc_network_str"] = lambda I, fr, st, ins, args: [(st, I.fresh_ptr(st, None, nonnull=True))]
				I.models.pop("loc_network_prefix", None)
				I.models["loc_address_bit_length"] = ck.m_length
				I.models["loc_address_get_bit"] = ck.m_bit
				I.models["loc_address_increment"] = ck.m_increment
				I.models["loc_address_cmp"] = I.models["memcmp"] = ck.m_cmp
				I.models["loc_network_properties_cmp"] = ck.m_props
				I.models["loc_network_new"] = ck.m_new(contracts.all_models()["loc_network_new"])
				def setup(I2, st, args):
					ck.out, ck.n1, ck.n2 = [a[1] for a in args]
					I2.keyregs.add(args[0][1])
					I2.write(st, args[0], 8, I2.fresh_ptr(st, N))
					put(ck, I2, st, ck.n1, N, "family", C(fam))
					put(ck, I2, st, ck.n2, N, "family", C(fam if case["family"] else 12 - fam))
					if case["zero"]: ck.prefix = ck.less = C(0)
					else:
						ck.prefix = I2.fresh(st, 2, 30)
						ck.less = I2.fresh(st, 1, 30)
						I2.add_le(st, lin_add(ck.less, ck.prefix, -1))
					ck.raw = lin_add(ck.prefix, C(base))
					put(ck, I2, st, ck.n1, N, "prefix", ck.raw)
					put(ck, I2, st, ck.n2, N, "prefix", lin_add(ck.raw, C(way)))
					u = lambda: tuple(I2.fresh(st, 0, 1 << 60) for _ in "ab")
					ck.first1, ck.last, ck.after, ck.first2 = u(), u(), u(), u()
					for n, fl, v in ((ck.n1, "first_address", ck.first1), (ck.n1, "last_address", ck.last), (ck.n2, "first_address", ck.first2)):
						for i in (0, 1): I2.write(st, ("p", n, C(ck.off(N, fl)[0] + 8 * i)), 8, v[i])
					for n in ("asn", "flags"):
						x = I2.fresh(st, 1, 0x7fff)
						put(ck, I2, st, ck.n1, N, n, x)
						put(ck, I2, st, ck.n2, N, n, x if case["properties"] else I2.fresh(st, 1, 0x7fff))
					o, z = ck.off(N, "country_code")
					for n in (ck.n1, ck.n2):
						for i, c in enumerate("DE\0"): I2.write(st, ("p", n, C(o + i)), 1, C(ord(c)))
				I.entry(f, setup)
				out.append(ck)
	return out

# -- steps of the walks
def deleters(prog):
	return [f for f in prog.repo_fns() if f.internal and len(f.sig) == 3 and f.ret == 32 and own.struct_ptr(f.sig[1]) == T and own.struct_ptr(f.sig[2]) == N]

def reach(prog, f):
	todo, seen, names = [f], set(), set()
	while todo:
		g = todo.pop()
		if g in seen: continue
		seen.add(g)
		for i in g.calls():
			n = i.d.get("fn")
			if not n: continue
			names.add(n)
			h = prog.lookup(g.unit, n)
			if h is not None and h.internal: todo.append(h)
	return names

def steps(prog):
	d = {f.name for f in deleters(prog)}
	r = []
	for f in prog.repo_fns():
		if f.internal and len(f.sig) == 3 and f.ret == 32 and own.struct_ptr(f.sig[1]) == N and f.params[1]["ty"] == "ptr" and own.struct_ptr(f.sig[2]) is None:
			n = reach(prog, f)
			if n & d: r.append((f, "loc_network_merge" in n))
	return r

TOP, SIZE = ("Z", "top"), ("Z", "size")
class Step(Path):
	def net(self, p): return p[0] == "p" and p[1] == self.network and p[2] == C(0)
	def elem(self, p): return p[0] == "p" and p[1] == ("elem",) and p[2] == C(0)
	def m_size(self, I, fr, st, ins, args): return [(st, self.cell(st, SIZE))]
	def m_empty(self, I, fr, st, ins, args):
		out = []
		for k in (0, 1):
			s = st if k else st.copy()
			n = self.cell(s, SIZE)
			if (I.add_le(s, n) if k else I.add_le(s, lin_add(C(1), n, -1))) is not False: out.append((s, C(k)))
		return out
	def m_push(self, I, fr, st, ins, args):
		self.count("networks remembered")
		self.pushed(I, fr, st, ins, args[1])
		f2 = st.copy()
		f2.ts["failed"] = 1
		self.cell(st, SIZE, lin_add(self.cell(st, SIZE), C(1)))
		return [(st, C(0)), (f2, C(1))]
	def m_delete(self, I, fr, st, ins, args):
		self.count("networks removed")
		self.deleted(I, fr, st, ins, args[1])
		f2 = st.copy()
		f2.ts["failed"] = 1
		return [(st, C(0)), (f2, C(1))]
	def m_get(self, I, fr, st, ins, args):
		if self.same(I, st, args[1], self.cell(st, TOP)): return [(st, obj(st, ("elem",), N))]
		return [(st, I.fresh_ptr(st, N, nonnull=True))]

class Dedup(Step):
	def m_subnet(self, I, fr, st, ins, args):
		self.count("networks compared")
		if not self.elem(args[0]) or not self.net(args[1]): return fork(I, st, (C(0), {}), (C(1), {}))
		f2 = st.copy()
		f2.ts["sub"] = 1
		st.ts.pop("sub", None)
		st.ts["out"] = 1
		self.cell(st, TOP, lin_add(self.cell(st, TOP), C(-1)))
		return [(st, C(0)), (f2, C(1))]
	def m_props(self, I, fr, st, ins, args):
		self.count("networks compared")
		if self.elem(args[0]) and self.net(args[1]) or self.elem(args[1]) and self.net(args[0]): return fork(I, st, (C(-1), {}), (C(1), {}), (C(0), {"same": 1}))
		return fork(I, st, (C(0), {}), (C(1), {}))
	def m_get(self, I, fr, st, ins, args):
		r = super().m_get(I, fr, st, ins, args)
		for s, v in r:
			s.ts.pop("out", None); s.ts.pop("sub", None); s.ts.pop("same", None)
		return r
	def m_remove(self, I, fr, st, ins, args):
		self.count("networks forgotten")
		if not self.elem(args[1]) or not st.ts.get("out"): self.report("duplicate", fr.fn, ins, "a network is forgotten that may lie around those to come", st, key="forgotten")
		f2 = st.copy()
		f2.ts["failed"] = 1
		self.cell(st, SIZE, lin_add(self.cell(st, SIZE), C(-1)))
		return [(st, C(0)), (f2, C(1))]
	def pushed(self, I, fr, st, ins, x):
		if self.net(x): st.ts["pushed"] = 1
	def deleted(self, I, fr, st, ins, x):
		why = None
		if not self.net(x): why = "another network than the one that was compared"
		elif not st.ts.get("sub"): why = "a network that is not known to lie in the closest one around it"
		elif not st.ts.get("same"): why = "a network whose properties are not known to be those of the one around it"
		if why: self.report("duplicate", fr.fn, ins, "%s is removed as redundant" % why, st, key=why)
		st.ts["deleted"] = 1
	def on_ret(self, I, st, fr, ins, v):
		self.count("ends of steps")
		if st.ts.get("failed"): return
		v = I.resolve(st, v)
		if v[0] == "l" and I.truth(st, v) is True: return
		if not st.ts.get("deleted") and not st.ts.get("pushed"): self.report("duplicate", fr.fn, ins, "a network that stays in the tree is not compared with those inside of it", st, key="not pushed")

class Join(Step):
	def m_get(self, I, fr, st, ins, args): return [(st, obj(st, ("elem",), N))]
	def m_merge(self, I, fr, st, ins, args):
		self.count("attempts to join")
		ok = self.elem(args[1]) and self.net(args[2])
		f2, f3 = st.copy(), st.copy()
		f3.ts["failed"] = 1
		I.write(st, args[0], 8, NULL)
		I.write(f2, args[0], 8, obj(f2, ("joint",), N))
		for k in ("joint", "added"): f2.ts.pop(k, None)
		if ok: f2.ts["joint"] = 1
		return [(st, C(0)), (f2, C(0)), (f3, C(1))]
	def joint(self, p): return p[0] == "p" and p[1] == ("joint",) and p[2] == C(0)
	def m_add(self, I, fr, st, ins, args):
		self.count("networks added")
		return fork(I, st, (C(-16), {}), (C(-12), {"failed": 1}), (C(0), {"added": 1} if self.joint(args[1]) else {}))
	def deleted(self, I, fr, st, ins, x):
		why = None
		if not self.net(x) and not self.elem(x): why = "another network than the two that were joined"
		elif not st.ts.get("joint"): why = "a network that was not joined with the other"
		elif not st.ts.get("added"): why = "a network before the joint one is in its place"
		if why: self.report("replaced", fr.fn, ins, "%s is removed from the tree" % why, st, key=why)
	def m_forget(self, I, fr, st, ins, args): return fork(I, st, (C(1), {"failed": 1}), (C(0), {}))
	def pushed(self, I, fr, st, ins, x):
		if self.joint(x) and not st.ts.get("added"): self.report("replaced", fr.fn, ins, "a joint network that is not in the tree is joined with others", st, key="push")
	def m_again(self, I, fr, st, ins, args):
		self.count("joint networks joined")
		if self.joint(args[0]) and not st.ts.get("added"): self.report("replaced", fr.fn, ins, "a joint network that is not in the tree is joined with others", st, key="again")
		return fork(I, st, (C(1), {"failed": 1}), (C(0), {}))

def stepping(prog, contracts, budget):
	out = []
	d = deleters(prog)
	for f, merges in steps(prog):
		ck = (Join if merges else Dedup)(prog, contracts, f)
		I = machine(prog, contracts, ck, budget)
		for g in d: I.models[g.name] = ck.m_delete
		M = I.models
		M["loc_network_list_size"], M["loc_network_list_empty"], M["loc_network_list_get"], M["loc_network_list_push"] = ck.m_size, ck.m_empty, ck.m_get, ck.m_push
		M["loc_network_unref"] = lambda I, fr, st, ins, args: [(st, NULL)]
		if merges:
			M["loc_network_merge"], M["loc_network_tree_add_network"], M["loc_network_list_remove"], M[f.name] = ck.m_merge, ck.m_add, ck.m_forget, ck.m_again
			M["loc_network_list_remove_with_prefix_smaller_than"] = lambda I, fr, st, ins, args: [(st, C(0))]
		else:
			M["loc_network_is_subnet"], M["loc_network_properties_cmp"], M["loc_network_list_remove"] = ck.m_subnet, ck.m_props, ck.m_remove
		def setup(I2, st, args):
			ck.network = args[0][1]
			n = I2.fresh(st, 0, 1 << 20)
			ck.cell(st, SIZE, n)
			ck.cell(st, TOP, lin_add(n, C(-1)))
		I.entry(f, setup)
		out.append(ck)
	return out

# -- nodes
def deleted_at(prog):
	for n, o, z, t in prog.structs[TN]["fields"]:
		if n == "deleted": return o
	return None

class Mark(walk.Insert):
	adds = False
	def on_store(self, I, st, fr, ins, ptr, size, val):
		super().on_store(I, st, fr, ins, ptr, size, val)
		if ptr[0] != "p" or ptr[1] != ("cur",) or ptr[2] != C(self.mark) or is_const(val) and not val[1] & 1: return
		self.count("nodes marked")
		if not self.same(I, st, self.cell(st, ("Z", "prefix")), self.cell(st, walk.LEVEL)): self.report("node", fr.fn, ins, "the node that is marked as deleted is not at the level of the prefix of its network", st, key="level")
		for n in ("zero", "one", "network"):
			v = I.resolve(st, self.get(I, st, ("cur",), TN, n))
			if v != NULL: self.report("node", fr.fn, ins, "a node that may have %s is marked as deleted" % ("a network" if n == "network" else "a child"), st, key=n)

class Remove(Path):
	"""The recursive function that removes nodes."""
	def m_again(self, I, fr, st, ins, args):
		self.count("descents")
		f2, f3 = st.copy(), st.copy()
		if args[self.slot][0] == "p": I.write(st, args[self.slot], 8, NULL)
		return [(st, C(1)), (f2, C(0)), (f3, C(-1))]
	def gone(self, I, st, fr, ins):
		if st.ts.get("gone"): return
		self.count("nodes removed")
		st.ts["gone"] = 1
		d = I.read(st, ("p", self.node, C(self.mark)), 1, 8)
		if is_const(d) and d[1] & 1: return
		for n in ("zero", "one", "network"):
			v = I.resolve(st, self.get(I, st, self.node, TN, n))
			if v != NULL: self.report("node", fr.fn, ins, "a node that may have %s is removed" % ("a network" if n == "network" else "a child in use"), st, key=n)
	def on_call(self, I, st, fr, ins, name, args):
		if own.UNREF.match(name) and args and args[0][0] == "p" and args[0][1] == self.node: self.gone(I, st, fr, ins)
	def on_store(self, I, st, fr, ins, ptr, size, val):
		if ptr[0] == "p" and ptr[1] == self.where and ptr[2] == C(0) and val == NULL: self.gone(I, st, fr, ins)
	def on_ret(self, I, st, fr, ins, v):
		self.count("ends of removals")
		v = I.resolve(st, v)
		if st.ts.get("gone"): return
		if v[0] != "l" or not I.le0(st, v, 2): self.report("node", fr.fn, ins, "a node that is still there is said to have been removed", st, key="there")

class Again(Path):
	"""A node that is handed out as part of a path is not marked as deleted."""
	def on_ret(self, I, st, fr, ins, v):
		self.count("nodes in use again")
		v = I.resolve(st, v)
		if v[0] != "p" or v[1] not in self.children: return
		d = I.read(st, ("p", v[1], C(self.mark)), 1, 8)
		if not is_const(d) or d[1] & 1: self.report("node", fr.fn, ins, "a node on the path of a network stays marked as deleted", st, key=str(self.way))

def nodes(prog, contracts, budget):
	out = []
	mark = deleted_at(prog)
	if mark is None: return []
	is_node = lambda t, n=1: own.struct_ptr(t, n) == TN
	paths = [f for f in prog.repo_fns() if len(f.sig) == 3 and is_node(f.sig[0]) and is_node(f.sig[1]) and isinstance(f.params[1]["ty"], int) and f.internal]
	g, _ = walk.getters(prog)
	for f in deleters(prog):
		ck = Mark(prog, contracts, f)
		ck.mark = mark
		I = machine(prog, contracts, ck, budget)
		for s in paths: I.models[s.name] = ck.m_step
		for n in g: I.models[n] = ck.m_get_bit
		def setup(I2, st, args):
			ck.network = args[1][1]
			obj(st, ("cur",), TN)
			put(ck, I2, st, args[0][1], T, "root", ("p", ("cur",), C(0)))
			I2.write(st, ("p", ("cur",), C(mark)), 1, C(0))
			ck.cell(st, walk.LEVEL, C(0))
			ck.cell(st, ("Z", "prefix"), ck.get(I2, st, ck.network, N, "prefix"))
		I.entry(f, setup)
		out.append(ck)
	for f in paths:
		for way in (0, 1):
			for m in (0, 1):
				ck = Again(prog, contracts, f)
				ck.mark, ck.way = mark, way
				I = machine(prog, contracts, ck, budget)
				def setup2(I2, st, args):
					ck.children = [("child", n) for n in ("zero", "one")]
					for c in ck.children:
						put(ck, I2, st, args[0][1], TN, c[1], obj(st, c, TN))
						I2.write(st, ("p", c, C(mark)), 1, C(m))
					I2.assume_int(st, "eq", args[1], C(way), 32)
					for (sid, _) in args[1][2]: st.info[sid] = (way, way, False)
				I.entry(f, setup2)
				out.append(ck)
	for f in prog.repo_fns():
		if f.ret != 32 or not f.internal or not any(is_node(t, 2) for t in f.sig[1:]) or not any(prog.lookup(f.unit, i.d.get("fn")) is f for i in f.calls()): continue
		for m in (0, 1):
			ck = Remove(prog, contracts, f)
			ck.mark, ck.slot = mark, [is_node(t, 2) for t in f.sig[1:]].index(True)
			I = machine(prog, contracts, ck, budget)
			I.models[f.name] = ck.m_again
			I.models["loc_network_tree_node_unref"] = lambda I, fr, st, ins, args: [(st, NULL)]
			def setup3(I2, st, args):
				a = args[ck.slot]
				ck.where, ck.node = a[1], ("node",)
				I2.write(st, a, 8, obj(st, ("node",), TN))
				I2.write(st, ("p", ck.node, C(mark)), 1, C(m))
			I.entry(f, setup3)
			out.append(ck)
	return out
