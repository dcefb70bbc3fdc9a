"""Cutting networks out of a network.
  overlaps   two networks overlap exactly if they have an address in common
  halves     the halves of a network are made from its first address and the one after the first half, one bit longer, with all its properties
  exclude    what is left is, at every level, the half without the network that is cut out, and what is left of the other half
  list       where several networks are cut out, a part is dropped only if it lies in one of them, broken down only by one inside of it, and kept otherwise
"""
from absint import *
import own, walk
from walk import Path, machine
from cleanup import N, L, put, obj, fork

# -- relations of two networks, as first and last addresses of both
ORDERS = [((0, 7), (0, 7)), ((0, 0), (0, 0))]
for x in (((0, 7), (0, 3)), ((0, 7), (4, 7)), ((0, 7), (2, 3)), ((0, 7), (2, 2)), ((0, 1), (0, 0)), ((0, 1), (1, 1)), ((0, 3), (4, 7)), ((0, 0), (1, 1)), ((0, 0), (4, 7)), ((0, 3), (6, 7))):
	ORDERS += [x, x[::-1]]

class Overlap(Path):
	def point(self, p):
		if p[0] != "p" or p[1] not in self.nets: return None
		for k, n in enumerate(("first", "last")):
			if p[2] == C(self.off(N, n + "_address")[0]): return self.order[self.nets.index(p[1])][k]
		return None
	def m_matches(self, I, fr, st, ins, args):
		self.count("addresses compared")
		a = self.point(args[1])
		if args[0][0] != "p" or args[0][1] not in self.nets or args[0][2] != C(0) or a is None: return fork(I, st, (C(0), {}), (C(1), {}))
		lo, hi = self.order[self.nets.index(args[0][1])]
		return [(st, C(1 if lo <= a <= hi else 0))]
	def m_cmp(self, I, fr, st, ins, args):
		self.count("addresses compared")
		a, b = self.point(args[0]), self.point(args[1])
		if a is None or b is None: return [(st, I.fresh(st, -1, 1))]
		return [(st, C((a > b) - (a < b)))]
	def m_subnet(self, I, fr, st, ins, args):
		if any(a[0] != "p" or a[1] not in self.nets or a[2] != C(0) for a in args): return fork(I, st, (C(0), {}), (C(1), {}))
		(a, b), (c, d) = [self.order[self.nets.index(x[1])] for x in args]
		return [(st, C(1 if a <= c and d <= b else 0))]
	def on_ret(self, I, st, fr, ins, v):
		self.count("cases of overlaps")
		(a, b), (c, d) = self.order
		want = a <= d and c <= b
		if I.truth(st, I.resolve(st, v)) is not want: self.report("overlaps", fr.fn, ins, "networks %s are said to %s" % (("with common addresses", "have none") if want else ("without common addresses", "have some")), st, key=str(self.order))

def overlaps(prog, contracts, budget):
	out = []
	f = prog.fn("loc_network_overlaps")
	for order in ORDERS if f else ():
		ck = Overlap(prog, contracts, f)
		ck.order = order
		I = machine(prog, contracts, ck, budget)
		I.models["loc_network_matches_address"], I.models["loc_address_cmp"], I.models["memcmp"], I.models["loc_network_is_subnet"] = ck.m_matches, ck.m_cmp, ck.m_cmp, ck.m_subnet
		def setup(I2, st, args):
			ck.nets = [args[0][1], args[1][1]]
			for n, (lo, hi) in zip(ck.nets, order): put(ck, I2, st, n, N, "prefix", C(128 - (hi - lo + 1).bit_length() + 1))
		I.entry(f, setup)
		out.append(ck)
	return out

class Halves(Path):
	def is_field(self, p, o, f): return p[0] == "p" and p[1] == o and p[2] == C(self.off(N, f)[0])
	def halves(self, st, p):
		if p[0] != "p" or not is_const(p[2]): return None
		h = tuple(st.mem.get((p[1], p[2][1] + 8 * i, 8)) for i in (0, 1))
		return None if None in h else h
	def m_valid(self, I, fr, st, ins, args): return fork(I, st, (C(0), {"failed": 1}), (C(1), {}))
	def m_increment(self, I, fr, st, ins, args):
		self.count("increments")
		h = self.halves(st, args[0])
		new = self.after if h == self.last1 else tuple(I.fresh(st, 0, 1 << 60) for _ in "ab")
		for i in (0, 1): I.write(st, ("p", args[0][1], lin_add(args[0][2], C(8 * i))), 8, new[i])
		return [(st, None)]
	def m_new(self, I, fr, st, ins, args):
		self.count("networks made")
		h = self.halves(st, args[2])
		k = "?"
		if self.same(I, st, args[3], lin_add(self.prefix, C(1))):
			if self.is_field(args[2], self.network, "first_address") or h == self.first: k = 1
			elif h == self.after or self.is_field(args[2], self.network, "last_address") or h == self.last: k = 2
		f2 = st.copy()
		f2.ts["failed"] = 1
		I.write(f2, args[1], 8, NULL)
		name = ("half", k)
		p = obj(st, name, N)
		for n in ("asn", "flags"): put(self, I, st, name, N, n, C(0))
		o, z = self.off(N, "country_code")
		for i in range(z): I.write(st, ("p", name, C(o + i)), 1, C(0))
		if k == 1:
			for i in (0, 1): I.write(st, ("p", name, C(self.off(N, "last_address")[0] + 8 * i)), 8, self.last1[i])
		I.write(st, args[1], 8, p)
		return [(st, C(0)), (f2, C(1))]
	def m_set(self, n, combine=False):
		def m(I, fr, st, ins, args):
			self.count("properties copied")
			if args[0][0] == "p" and args[0][1][0] == "half":
				# flags are zero in a new network
				if combine and self.get(I, st, args[0][1], N, n) != C(0): put(self, I, st, args[0][1], N, n, I.fresh(st, 0, 0x7fff))
				else: put(self, I, st, args[0][1], N, n, args[1])
			return [(st, C(0))]
		return m
	def m_country(self, I, fr, st, ins, args):
		self.count("properties copied")
		if args[0][0] == "p" and args[1][0] == "p": copy_mem(I, st, ("p", args[0][1], C(self.off(N, "country_code")[0])), args[1], 2)
		return [(st, C(0))]
	def m_copy(self, I, fr, st, ins, args):
		self.count("properties copied")
		copy_mem(I, st, args[0], args[1], 2)
		return [(st, None)]
	def on_ret(self, I, st, fr, ins, v):
		self.count("halves checked")
		v = I.resolve(st, v)
		if v[0] == "l" and I.truth(st, v) is True: return
		if st.ts.get("failed"): self.report("halves", fr.fn, ins, "reports success although a half could not be made", st, key="failed"); return
		got = []
		for out in self.outs:
			w = st.mem.get((out, 0, 8))
			got.append(w[1][1] if w is not None and w[0] == "p" and w[1][0] == "half" else None)
		if sorted(map(str, got)) != ["1", "2"]: self.report("halves", fr.fn, ins, "what is returned are not the two halves of the network", st, key="which"); return
		for k in (1, 2):
			for n in ("asn", "flags"):
				if not self.same(I, st, self.get(I, st, ("half", k), N, n), self.get(I, st, self.network, N, n)): self.report("halves", fr.fn, ins, "the half %d of a network does not get its %s" % (k, n), st, key="%s %d" % (n, k))
			o, z = self.off(N, "country_code")
			if any(I.read(st, ("p", ("half", k), C(o + i)), 1, 8) != C(ord("DE"[i])) for i in (0, 1)): self.report("halves", fr.fn, ins, "the half %d of a network does not get its country" % k, st, key="country %d" % k)

def splitting(prog, contracts, budget):
	out = []
	f = prog.fn("loc_network_subnets")
	for fam, base in ((10, 0), (2, 96)) if f else ():
		for asn in (0, 1):
			ck = Halves(prog, contracts, f)
			I = machine(prog, contracts, ck, budget)
			I.models.pop("loc_network_subnets", None)
			I.models.pop("loc_network_prefix", None)
			M = I.models
			M["loc_address_valid_prefix"], M["loc_address_increment"], M["loc_network_new"] = ck.m_valid, ck.m_increment, ck.m_new
			M["loc_network_set_asn"], M["loc_network_set_flag"], M["loc_network_set_country_code"], M["loc_country_code_copy"] = ck.m_set("asn"), ck.m_set("flags", True), ck.m_country, ck.m_copy
			M["loc_network_unref"] = lambda I, fr, st, ins, args: [(st, NULL)]
			M["loc_network_str"] = lambda I, fr, st, ins, args: [(st, I.fresh_ptr(st, None, nonnull=True))]
			def setup(I2, st, args):
				ck.network, ck.outs = args[0][1], [args[1][1], args[2][1]]
				for o in ck.outs: I2.keyregs.add(o)
				put(ck, I2, st, ck.network, N, "family", C(fam))
				ck.prefix = I2.fresh(st, 0, 128 - base)
				put(ck, I2, st, ck.network, N, "prefix", lin_add(ck.prefix, C(base)))
				u = lambda: tuple(I2.fresh(st, 0, 1 << 60) for _ in "ab")
				ck.first, ck.last, ck.last1, ck.after = u(), u(), u(), u()
				for fl, v in (("first_address", ck.first), ("last_address", ck.last)):
					for i in (0, 1): I2.write(st, ("p", ck.network, C(ck.off(N, fl)[0] + 8 * i)), 8, v[i])
				put(ck, I2, st, ck.network, N, "asn", C(0) if not asn else I2.fresh(st, 1, 1 << 31))
				put(ck, I2, st, ck.network, N, "flags", I2.fresh(st, 0, 0x7fff))
				o, z = ck.off(N, "country_code")
				for i, c in enumerate("DE\0"): I2.write(st, ("p", ck.network, C(o + i)), 1, C(ord(c)))
			I.entry(f, setup)
			out.append(ck)
	return out

# -- one network out of another
def recursive(prog):
	"""(functions that cut a network out of another, those of them that call themselves)"""
	fs = [f for f in prog.repo_fns() if f.internal and f.ret == 32 and len(f.sig) == 4 and own.struct_ptr(f.sig[1]) == N and own.struct_ptr(f.sig[2]) == N and own.struct_ptr(f.sig[3]) == L]
	return fs, [f for f in fs if any(prog.lookup(f.unit, i.d.get("fn")) is f for i in f.calls())]

# where the network to cut out lies: equal to a half, or inside of it
CASES = ("is the first half", "is the second half", "lies in the first half", "lies in the second half")
SPANS = {"network": (0, 15), "1": (0, 7), "2": (8, 15)}
OTHER = {CASES[0]: [(0, 7)], CASES[1]: [(8, 15)], CASES[2]: [(0, 3), (4, 7), (2, 3), (0, 0), (7, 7)], CASES[3]: [(8, 11), (12, 15), (10, 11), (8, 8), (15, 15)], "is it": [(0, 15)], "lies outside of it": [(16, 31), (-16, -1)], "lies around it": [(0, 31), (-16, 15)]}

class Exclude(Path):
	def span(self, p):
		if p[0] != "p" or p[2] != C(0): return None
		if p[1] == self.network: return SPANS["network"]
		if p[1] == self.other: return self.where
		if p[1][0] == "half": return SPANS[p[1][1]]
		return None
	def m_subnets(self, I, fr, st, ins, args):
		self.count("networks split")
		f2 = st.copy()
		f2.ts["failed"] = 1
		I.write(f2, args[1], 8, NULL); I.write(f2, args[2], 8, NULL)
		if args[0][0] == "p" and args[0][1] == self.network:
			for k in ("1", "2"): I.write(st, args[int(k)], 8, obj(st, ("half", k), N))
		else:
			for k in (1, 2): I.write(st, args[k], 8, I.fresh_ptr(st, N, nonnull=True))
		return [(st, C(0)), (f2, C(1))]
	def m_cmp(self, I, fr, st, ins, args):
		self.count("networks compared")
		a, b = self.span(args[0]), self.span(args[1])
		if a is None or b is None: return fork(I, st, (C(-1), {}), (C(0), {}), (C(1), {}))
		x, y = (a[0], -a[1]), (b[0], -b[1])
		return [(st, C((x > y) - (x < y)))]
	def m_rel(self, how):
		def m(I, fr, st, ins, args):
			self.count("networks compared")
			a, b = self.span(args[0]), self.span(args[1])
			if a is None or b is None: return fork(I, st, (C(0), {}), (C(1), {}))
			return [(st, C(1 if how(a, b) else 0))]
		return m
	def note(self, st, x): st.ts["log"] = tuple(sorted(st.ts.get("log", ()) + (x,)))
	def m_push(self, I, fr, st, ins, args):
		self.count("parts kept")
		if args[0][0] == "p" and args[0][1] == self.list:
			x = args[1][1]
			self.note(st, ("keeps the half %s" % x[1] if x[0] == "half" else "keeps the network" if x == self.network else "keeps something else"))
		f2 = st.copy()
		f2.ts["failed"] = 1
		return [(st, C(0)), (f2, C(1))]
	def m_again(self, I, fr, st, ins, args):
		self.count("descents")
		if args[2][0] == "p" and args[2][1] == self.list and args[1][0] == "p" and args[1][1] == self.other:
			x = args[0][1]
			self.note(st, "cuts the half %s" % x[1] if x[0] == "half" else "cuts the network" if x == self.network else "cuts something else")
		else: self.note(st, "cuts something else")
		f2 = st.copy()
		f2.ts["failed"] = 1
		return [(st, C(0)), (f2, C(1))]
	def on_ret(self, I, st, fr, ins, v):
		self.count("cases of cutting")
		v = I.resolve(st, v)
		if v[0] == "l" and I.truth(st, v) is True:
			if not st.ts.get("failed"): self.report("exclude", fr.fn, ins, "fails although nothing went wrong if the other network %s" % self.case, st, key="fails " + self.case)
			return
		if st.ts.get("failed"): return
		log = st.ts.get("log", ())
		if self.case in CASES:
			i, h = CASES.index(self.case), ("1", "2")
			want = ("keeps the half %s" % h[1 - i % 2],) if i < 2 else tuple(sorted(("keeps the half %s" % h[1 - i % 2], "cuts the half %s" % h[i % 2])))
			wants = (want,) if not self.wrapper else (want, ("cuts the network",))
		else: wants = ((),)
		if log not in wants: self.report("exclude", fr.fn, ins, "if the other network %s, it %s" % (self.case, " and ".join(log) or "keeps nothing"), st, key=self.case)

def excluding(prog, contracts, budget):
	out = []
	fs, rec = recursive(prog)
	if len(rec) != 1: return out
	inside = lambda a, b: a[0] <= b[0] and b[1] <= a[1]
	both = lambda a, b: a[0] <= b[1] and b[0] <= a[1]
	for f in fs:
		wrapper = f is not rec[0]
		if wrapper and not any(prog.lookup(f.unit, i.d.get("fn")) is rec[0] for i in f.calls()): continue
		for case, places in OTHER.items():
			if case not in CASES and (not wrapper and any(g is not rec[0] for g in fs)): continue
			for where in places:
				ck = Exclude(prog, contracts, f)
				ck.case, ck.where, ck.wrapper = case, where, wrapper
				I = machine(prog, contracts, ck, budget)
				M = I.models
				M["loc_network_subnets"], M["loc_network_cmp"], M["loc_network_list_push"], M[rec[0].name] = ck.m_subnets, ck.m_cmp, ck.m_push, ck.m_again
				M["loc_network_is_subnet"], M["loc_network_overlaps"] = ck.m_rel(inside), ck.m_rel(both)
				M["loc_network_unref"] = lambda I, fr, st, ins, args: [(st, NULL)]
				M["loc_network_str"] = lambda I, fr, st, ins, args: [(st, I.fresh_ptr(st, None, nonnull=True))]
				def setup(I2, st, args): ck.network, ck.other, ck.list = args[0][1], args[1][1], args[2][1]
				I.entry(f, setup)
				out.append(ck)
	return out

# -- a list of networks out of one
class Many(Path):
	"""What becomes of the parts that are still to be looked at."""
	def which(self, p):
		if p[0] != "p" or p[2] != C(0): return None
		return "part" if p[1] == ("part",) else "member" if p[1] == ("member",) else "network" if p[1] == self.network else None
	def m_pop(self, I, fr, st, ins, args):
		self.count("parts looked at")
		self.settled(I, st, fr, ins)
		f2 = st.copy()
		for s in (st, f2): self.forget(s)
		st.ts["part"] = 1
		if args[0][0] == "p": st.ts["from"] = args[0][1]
		return [(st, obj(st, ("part",), N)), (f2, NULL)]
	def forget(self, st):
		for k in ("part", "drop", "over", "sub", "bad"): st.ts.pop(k, None)
	def settled(self, I, st, fr, ins):
		if st.ts.get("part") and not st.ts.get("drop") and not st.ts.get("failed"): self.report("list", fr.fn, ins, "a part is dropped that is not known to lie in one of the networks that are cut out", st, key="lost")
	def m_get(self, I, fr, st, ins, args):
		if args[0][0] != "p" or args[0][1] != self.list: return [(st, I.fresh_ptr(st, N, nonnull=True))]
		for k in ("over", "sub"): st.ts.pop(k, None)
		return [(st, obj(st, ("member",), N))]
	def m_contains(self, I, fr, st, ins, args):
		if st.ts.get("part") and args[0][0] == "p" and args[0][1] == self.list and self.which(args[1]) == "part": return fork(I, st, (C(0), {}), (C(1), {"drop": 1, "bad": 1}))
		return fork(I, st, (C(0), {}), (C(1), {}))
	def m_subnet(self, I, fr, st, ins, args):
		self.count("parts compared")
		a = (self.which(args[0]), self.which(args[1]))
		if a == ("member", "part"): return fork(I, st, (C(0), {"sub": 0}), (C(1), {"sub": 1, "drop": 1, "bad": 1}))
		if a == ("part", "member"): return fork(I, st, (C(0), {}), (C(1), {"bad": 1, "over": 1}))
		return fork(I, st, (C(0), {}), (C(1), {}))
	def m_overlaps(self, I, fr, st, ins, args):
		self.count("parts compared")
		if {self.which(args[0]), self.which(args[1])} == {"member", "part"}: return fork(I, st, (C(0), {"over": 0}), (C(1), {"over": 1, "bad": 1}))
		return fork(I, st, (C(0), {}), (C(1), {}))
	def m_cut(self, I, fr, st, ins, args):
		self.count("networks cut out")
		a = (self.which(args[0]), self.which(args[1]))
		if a[0] == "part":
			if a[1] != "member": self.report("list", fr.fn, ins, "a part is broken down by something else than a network that is cut out", st, key="by")
			elif not st.ts.get("over") or st.ts.get("sub", 1): self.report("list", fr.fn, ins, "a part is broken down by a network that may not lie inside of it", st, key="inside")
			elif args[2][0] != "p" or args[2][1] != st.ts.get("from"): self.report("list", fr.fn, ins, "what is left of a part is not looked at again", st, key="again")
		elif a == ("network", "member"): st.ts["cut"] = 1
		f2 = st.copy()
		f2.ts["failed"] = 1
		if a[0] == "part": st.ts["drop"] = 1
		return [(st, C(0)), (f2, C(1))]
	def m_push(self, I, fr, st, ins, args):
		self.count("parts kept")
		f2 = st.copy()
		f2.ts["failed"] = 1
		if self.which(args[1]) == "part":
			if st.ts.get("bad"): self.report("list", fr.fn, ins, "a part is kept that is known to overlap with a network that is cut out", st, key="kept")
			st.ts["drop"] = 1
			if args[0][0] == "p": st.ts["result"] = args[0][1]
		return [(st, C(0)), (f2, C(1))]
	def on_ret(self, I, st, fr, ins, v):
		self.count("lists returned")
		v = I.resolve(st, v)
		if v == NULL: return
		if st.ts.get("failed"): self.report("list", fr.fn, ins, "returns a list although something went wrong", st, key="failed"); return
		self.settled(I, st, fr, ins)
		if st.ts.get("from") is not None and v[0] == "p" and v[1] == st.ts["from"]: self.report("list", fr.fn, ins, "returns the parts that are still to be looked at", st, key="which")
		if st.ts.get("result") is not None and v[0] == "p" and v[1] != st.ts["result"]: self.report("list", fr.fn, ins, "does not return the parts that are kept", st, key="result")

def several(prog, contracts, budget):
	f = prog.fn("loc_network_exclude_list")
	if f is None: return []
	fs, rec = recursive(prog)
	ck = Many(prog, contracts, f)
	I = machine(prog, contracts, ck, budget)
	M = I.models
	for g in fs: M[g.name] = ck.m_cut
	M["loc_network_list_pop_first"] = M["loc_network_list_pop"] = ck.m_pop
	M["loc_network_list_get"], M["loc_network_list_contains"], M["loc_network_list_push"] = ck.m_get, ck.m_contains, ck.m_push
	M["loc_network_is_subnet"], M["loc_network_overlaps"] = ck.m_subnet, ck.m_overlaps
	M["loc_network_cmp"] = lambda I, fr, st, ins, args: fork(I, st, (C(-1), {}), (C(0), {}), (C(1), {}))
	M["loc_network_unref"] = M["loc_network_list_unref"] = lambda I, fr, st, ins, args: [(st, NULL)]
	M["loc_network_str"] = lambda I, fr, st, ins, args: [(st, I.fresh_ptr(st, None, nonnull=True))]
	M["loc_network_list_empty"] = lambda I, fr, st, ins, args: fork(I, st, (C(0), {}), (C(1), {}))
	M["loc_network_list_size"] = lambda I, fr, st, ins, args: [(st, I.fresh(st, 0, 1 << 20))]
	def setup(I2, st, args): ck.network, ck.list = args[0][1], args[1][1]
	I.entry(f, setup)
	return [ck]
