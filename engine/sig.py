"""What a signature covers: typestate of the file position, of the bytes read from it and of the digest, in the function that
verifies a database and in the one that writes (and signs) one."""
from absint import *
import own
from frontend import AnalysisError

CELL = ("Z", "unfed")

def const_of(I, st, v):
	if v[0] != "l": return None
	lo, hi = I.rng(st, v)
	return lo if lo == hi else None

class Sig(Checker):
	def __init__(self, prog, entry, mode):
		super().__init__()
		self.prog, self.entry, self.mode = prog, entry, mode
		h = prog.structs.get("loc_database_header_v1"); m = prog.structs.get("loc_database_magic")
		if not h or not m: raise AnalysisError("the format of the database header is not known")
		self.H, self.M = h["size"], m["size"]
		self.sigs = sorted((o, z, n) for n, o, z, t in h["fields"] if n.startswith("signature"))
		if len(self.sigs) < 2: raise AnalysisError("the header has no fields for signatures")
	# -- small helpers over the typestate
	def g(self, st, k, d=None): return st.ts.get(("sig", k), d)
	def s(self, st, k, v):
		if v is None: st.ts.pop(("sig", k), None)
		else: st.ts[("sig", k)] = v
	def unfed(self, I, st):
		"""Bytes that were read and not yet fed: (region, offset) when there may be any."""
		p = self.g(st, "unfed")
		if p is None: return None
		n = st.mem.get((CELL, 0, 8))
		if n is not None and n[0] == "l" and I.rng(st, n)[1] <= 0: return None
		return p
	def equal(self, I, st, a, b):
		if a == b: return True
		if a is None or b is None or a[0] != "l" or b[0] != "l": return False
		d = lin_add(a, b, -1)
		return is_const(d) and d[1] == 0 or I.le0(st, d, 1) and I.le0(st, lin_mul(d, -1), 1)
	# -- writes into buffers
	def mark(self, I, st, ptr, n, zero):
		if ptr[0] != "p" or not is_const(ptr[2]): 
			if ptr[0] == "p" and self.g(st, ("in", ptr[1])) is not None: self.s(st, ("mod", ptr[1]), frozenset([(0, 1 << 40, False)]))
			return
		if self.g(st, ("in", ptr[1])) is None and "loc_database_header_v1" not in (st.meta.get(ptr[1], {}).get("ty") or ""): return
		o = ptr[2][1]
		old = self.g(st, ("mod", ptr[1]), frozenset())
		new = set()
		for a, l, z in old:
			# what is overwritten now no longer counts
			if a < o: new.add((a, min(l, o - a), z))
			if a + l > o + n: new.add((max(a, o + n), a + l - max(a, o + n), z))
		new.add((o, n, zero))
		out = []
		for a, l, z in sorted(new):
			if l <= 0: continue
			if out and out[-1][2] == z and out[-1][0] + out[-1][1] == a: out[-1] = (out[-1][0], out[-1][1] + l, z)
			else: out.append((a, l, z))
		self.s(st, ("mod", ptr[1]), frozenset(out))
	def on_store(self, I, st, fr, ins, ptr, size, val):
		self.mark(I, st, ptr, size, val == C(0) or val == NULL)
		self.after_signing(I, st, fr, ins, ptr, size, val)
	def after_signing(self, I, st, fr, ins, ptr, n, val=None):
		if self.mode != "sign" or not self.g(st, "signed") or ptr[0] != "p" or ptr[1] != self.g(st, "header"): return
		if is_const(ptr[2]) and any(o <= ptr[2][1] and ptr[2][1] + n <= o + z for o, z, _ in self.sigs): 
			nm = [x for o, z, x in self.sigs if o <= ptr[2][1] < o + z][0]
			if val is not None and n == 2:
				k = [k for k in self.g(st, "made", ()) if val == m_bswap(I, None, st, type("I", (), {"ty": 16})(), [I.read(st, k[3], 8, 64)])[0][1]]
				self.s(st, ("length", nm), k[0] if k else "?")
			self.s(st, "filled", self.g(st, "filled", frozenset()) | {nm})
			return
		self.report("signed-then-changed", fr.fn, ins, "the header is changed outside its signature fields after it was signed", st)
	def on_call(self, I, st, fr, ins, name, args):
		b = name.split(".")[1] if name.startswith("llvm.") else name
		if b in ("memset", "memcpy", "memmove", "__memcpy_chk", "__memset_chk") and args[0][0] == "p":
			n = const_of(I, st, args[2])
			if n is None: hi = I.rng(st, args[2])[1] if args[2][0] == "l" else 1 << 40
			self.mark(I, st, args[0], n if n is not None else min(hi, 1 << 40), b in ("memset", "__memset_chk") and args[1] == C(0))
			d = args[0]
			if self.mode == "sign" and d[1] == self.g(st, "header") and self.g(st, "signed") and is_const(d[2]):
				t = [x for x in self.sigs if x[0] == d[2][1]]
				if t:
					# the length is bounded by P04; what matters is that this is the signature made for this field
					if b != "memset" and not self.nokey(I, st, t[0][2]):
						w = [k for k in self.g(st, "made", frozenset()) if args[1][0] == "p" and k[0] == args[1][1] and is_const(args[1][2]) and k[1] == args[1][2][1]]
						if not w: self.report("wrong-signature", fr.fn, ins, "%s is filled with something that is not a signature just made" % t[0][2], st)
						else: self.s(st, ("signature", t[0][2]), w[0])
						if w and not self.equal(I, st, args[2], I.read(st, w[0][3], 8, 64)): self.report("wrong-signature", fr.fn, ins, "%s is not filled with the whole signature" % t[0][2], st)
					self.s(st, "filled", self.g(st, "filled", frozenset()) | {t[0][2]})
				else: self.after_signing(I, st, fr, ins, d, n if n is not None else 1 << 40)
	def nokey(self, I, st, field):
		"""Without a key there is no signature, and its length is zero."""
		for n, o, z, t in self.prog.structs["loc_writer"]["fields"]:
			if n == field.replace("signature", "private_key"):
				k = I.read(st, ("p", self.arg0, C(o)), 8, "ptr")
				return k == NULL or k[0] == "p" and k[1] in st.null
		return False
	# -- file position
	def m_rewind(self, I, fr, st, ins, args):
		self.s(st, "pos", 0); self.s(st, "file", args[0]); self.s(st, "eof", None); self.s(st, "short", None)
		return [(st, None)]
	def m_fseek(self, I, fr, st, ins, args):
		f2 = st.copy()
		self.s(f2, "pos", None)
		o, w = const_of(I, st, args[1]), const_of(I, st, args[2])
		p = self.g(st, "pos")
		self.s(st, "eof", None); self.s(st, "short", None)
		if w == 0 and o is not None: self.s(st, "pos", self.norm(o)); self.s(st, "file", args[0])
		elif w == 1 and o is not None and type(p) is int: self.s(st, "pos", self.norm(p + o))
		elif w == 1 and o == 0: pass
		else: self.s(st, "pos", "end" if w == 2 and o == 0 else None)
		return [(st, C(0)), (f2, C(-1))]
	def norm(self, p):
		return p if p <= self.M + self.H else ("body", 0) if p < 0 else "body"
	def m_fread(self, I, fr, st, ins, args):
		p = I.deref(st, fr, ins, args[0], 1, True)
		if p is None: return []
		a, b = const_of(I, st, args[1]), const_of(I, st, args[2])
		pos = self.g(st, "pos")
		self.count("reads checked")
		if self.g(st, "init"):
			if self.g(st, "file") is not None and args[3] != self.g(st, "file"): self.report("coverage", fr.fn, ins, "reads from another file than the one whose start was sought", st)
			if pos is None or pos != self.g(st, "fed"): self.report("coverage", fr.fn, ins, "reads on at position %s while the digest covers the file up to position %s" % (pos, self.g(st, "fed")), st)
			if self.unfed(I, st): self.report("coverage", fr.fn, ins, "reads on before the bytes read before were fed into the digest", st)
		I.havoc_region(st, p[1])
		out = []
		n = a * b if a is not None and b is not None else None
		full, short = st, st.copy()
		self.s(full, "short", None)
		self.s(short, "short", 1)
		short.note("%s:%d fread ends early" % (fr.fn.rel.split("/")[-1], ins.ln))
		for s, v in ((full, args[2]), (short, I.fresh(short, 0, max(0, (b or 1 << 40) - 1)))):
			if s is short and args[2][0] == "l": I.add_le(s, lin_add(lin_add(v, args[2], -1), C(1)))
			self.s(s, ("in", p[1]), pos if pos is not None else "?"); self.s(s, ("mod", p[1]), None)
			self.s(s, "unfed", (p[1], p[2]) if is_const(p[2]) else (p[1], None))
			s.mem[(CELL, 0, 8)] = lin_mul(v, a) if a is not None and v[0] == "l" else I.fresh(s, 0, 1 << 40)
			s.meta[CELL] = {"kind": "Z", "size": C(8)}
			if s is full and n is not None and type(pos) is int: self.s(s, "pos", self.norm(pos + n) if pos < self.M + self.H else "body")
			elif s is full: self.s(s, "pos", "body" if pos == "body" else None)
			else: self.s(s, "pos", "body" if pos == "body" or pos == self.M + self.H else "end?")
			out.append((s, v))
		return out
	def m_feof(self, I, fr, st, ins, args):
		if not self.g(st, "short"): return [(st, C(0))]   # only a read that ends early finds the end
		f2 = st.copy()
		self.s(f2, "eof", 1)
		return [(st, C(0)), (f2, I.fresh(f2, 1, 1 << 30))]
	def m_ferror(self, I, fr, st, ins, args):
		f2 = st.copy()
		self.s(f2, "broken", 1)
		if self.g(st, "short"): self.s(st, "eof", 1)
		return [(st, C(0)), (f2, I.fresh(f2, 1, 1 << 30))]
	# -- the digest
	def m_init(self, I, fr, st, ins, args):
		f2 = st.copy()
		self.s(st, "init", 1); self.s(st, "fed", 0); self.s(st, "unfed", None); self.s(st, "final", None)
		self.s(st, "key", args[4] if len(args) > 4 else None)
		if self.mode == "verify":
			k = args[4] if len(args) > 4 else None
			if k is None or k[0] != "p" or st.meta.get(k[1], {}).get("cls") != "EVP_PKEY": self.report("key", fr.fn, ins, "the digest is not verified with the public key that was read", st)
		return [(st, C(1)), (f2, I.fresh(f2, -2, 0))]
	def m_update(self, I, fr, st, ins, args):
		f2 = st.copy()
		self.s(f2, "broken", 1)
		self.count("digest updates checked")
		data, n = args[1], args[2]
		p = self.unfed(I, st)
		have = st.mem.get((CELL, 0, 8))
		why = None
		if not self.g(st, "init"): why = "feeds data before the digest was initialised"
		elif self.g(st, "unfed") is not None and data[0] == "p" and data[1] == self.g(st, "unfed")[0] and is_const(data[2]) and (self.g(st, "unfed")[1] == data[2]):
			if not self.equal(I, st, n, have): why = "does not feed exactly the bytes that were read"
			else: why = self.content(st, data[1], self.g(st, ("in", data[1])), have)
			self.s(st, "fed", self.g(st, "pos"))
			self.s(st, "unfed", None)
		elif p: why = "feeds something else while bytes read from the file were not fed"
		elif n[0] == "l" and I.rng(st, n)[1] <= 0: pass
		elif self.mode == "sign" and data[0] == "p" and data[2] == C(0) and self.g(st, "fed") == self.M and const_of(I, st, n) == self.H:
			# the header as it will be written, with the signatures blank
			self.s(st, "fed", self.M + self.H)
			if self.g(st, "header") not in (None, data[1]): why = "signs a different header for each key"
			self.s(st, "header", data[1])
			mod = self.g(st, ("mod", data[1]), frozenset())
			for o, z, nm in self.sigs:
				if not any(a <= o and o + z <= a + l and k for a, l, k in mod): why = "%s is not blank in the header that is signed" % nm
		else: why = "feeds bytes that were not read from the file at this position"
		if why: self.report("coverage", fr.fn, ins, why, st)
		return [(st, C(1)), (f2, I.fresh(f2, -2, 0))]
	def content(self, st, rid, pos, n):
		mod = self.g(st, ("mod", rid), frozenset())
		if pos == self.M:
			want = []
			for o, z, nm in self.sigs:
				if want and want[-1][0] + want[-1][1] == o: want[-1] = (want[-1][0], want[-1][1] + z)
				else: want.append((o, z))
			for a, l in want:
				if not any(x <= a and a + l <= x + y and k for x, y, k in mod): return "the signatures are not blank in the header that is fed"
			for x, y, k in mod:
				if not any(a <= x and x + y <= a + l for a, l in want): return "the header is changed outside its signature fields before it is fed"
			return None
		return "the bytes read are changed before they are fed" if mod else None
	def complete(self, I, st):
		if self.g(st, "broken"): return "a step before it has failed"
		if not self.g(st, "init"): return "the digest was not initialised"
		if self.unfed(I, st): return "bytes that were read have not been fed"
		if not self.g(st, "eof"): return "the end of the file may not have been reached"
		fed = self.g(st, "fed")
		if self.g(st, "unfed") is not None: fed = self.g(st, "pos")   # the last read had nothing to feed
		if fed != "body": return "only the bytes up to position %s have been fed" % (self.g(st, "fed"),)
		return None
	def m_vfinal(self, I, fr, st, ins, args):
		self.count("signature checks")
		why = self.complete(I, st)
		if why: self.report("coverage", fr.fn, ins, "the signature is checked although " + why, st)
		ok, neg = st.copy(), st.copy()
		db = self.arg0
		good = False
		for n, o, z, t in self.prog.structs["loc_database"]["fields"]:
			t = t.replace("struct ", "")
			if not n.startswith("signature"): continue
			s = self.prog.structs.get(t)
			if not s: continue
			f = {x[0]: x[1] for x in s["fields"]}
			if "data" in f and "length" in f:
				a, b = I.read(st, ("p", db, C(o + f["data"])), 8, "ptr"), I.read(st, ("p", db, C(o + f["length"])), 8, 64)
				if a == args[1] and self.equal(I, st, b, args[2]): good = True
		if not good: self.report("signature", fr.fn, ins, "what is checked is not one of the signatures of the database in full length", st)
		self.s(ok, "final", 1)
		ok.note("%s:%d signature accepted" % (fr.fn.rel.split("/")[-1], ins.ln))
		return [(st, C(0)), (ok, C(1)), (neg, I.fresh(neg, -2, -1))]
	def m_sfinal(self, I, fr, st, ins, args):
		self.count("signatures made")
		f2 = st.copy()
		self.s(f2, "broken", 1)
		why = self.complete(I, st)
		if why: self.report("coverage", fr.fn, ins, "the signature is made although " + why, st)
		self.s(st, "signed", 1)
		if args[1][0] == "p" and is_const(args[1][2]) and args[2][0] == "p":
			I.write(st, args[2], 8, I.fresh(st, 1, 2048))
			self.s(st, "made", self.g(st, "made", frozenset()) | {(args[1][1], args[1][2][1], self.g(st, "key"), args[2])})
		self.s(st, "init", None); self.s(st, "unfed", None)
		return [(st, C(1)), (f2, I.fresh(f2, -2, 0))]
	def m_fwrite(self, I, fr, st, ins, args):
		f2 = st.copy()
		self.s(f2, "broken", 1)
		p, a, b = self.g(st, "pos"), const_of(I, st, args[1]), const_of(I, st, args[2])
		if self.g(st, "signed"):
			if args[0][0] == "p" and args[0][1] == self.g(st, "header") and args[0][2] == C(0) and a is not None and b is not None and a * b == self.H:
				if p != self.M: self.report("signed-then-changed", fr.fn, ins, "the signed header is not written to its place", st)
				self.s(st, "written", 1)
				for o, z, nm in self.sigs:
					k = self.g(st, ("signature", nm))
					if k is not None and self.g(st, ("length", nm + "_length")) not in (None, k): self.report("wrong-signature", fr.fn, ins, "the length stored for %s is not that of the signature" % nm, st)
				if len(self.g(st, "filled", ())) < 2 * len(self.g(st, "made", ())): self.report("wrong-signature", fr.fn, ins, "the header is written without the signature that was made, or without its length", st)
			else: self.report("signed-then-changed", fr.fn, ins, "something else than the signed header is written after signing", st)
		if type(p) is int and a is not None and b is not None: self.s(st, "pos", self.norm(p + a * b))
		else: self.s(st, "pos", None)
		v = I.fresh(f2, 0, 1 << 40)
		if args[2][0] == "l": I.add_le(f2, lin_add(lin_add(v, args[2], -1), C(1)))
		return [(st, args[2]), (f2, v)]
	def m_newkey(self, base):
		def m(I, fr, st, ins, args):
			if self.mode == "verify" and (args[0][0] != "p" or args[0][1] != self.arg1): self.report("key", fr.fn, ins, "the public key is not read from the file that was given", st)
			return base(I, fr, st, ins, args)
		return m
	def on_ret(self, I, st, fr, ins, v):
		self.count("returns checked")
		if v is not None and v[0] == "l" and I.truth(st, v) is True: return
		if self.mode == "verify":
			self.count("successful returns checked")
			if not self.g(st, "final"): self.report("accepted", fr.fn, ins, "reports success without a signature that was accepted", st)
			elif self.g(st, "broken"): self.report("accepted", fr.fn, ins, "reports success although a step before has failed", st)
			return
		self.count("successful returns checked")
		if self.g(st, "signed") and not self.g(st, "written"): self.report("wrong-signature", fr.fn, ins, "a signature was made, but the header that carries it was not written", st)
		for n, o, z, t in self.prog.structs["loc_writer"]["fields"]:
			if n.startswith("private_key"):
				k = I.read(st, ("p", self.arg0, C(o)), 8, "ptr")
				if k == NULL or k[0] == "p" and k[1] in st.null: continue
				if not any(m[2] == k for m in self.g(st, "made", ())): self.report("unsigned", fr.fn, ins, "reports success although no signature was made with %s" % n, st)

def analyse(prog, contracts, name, mode, budget=250000):
	f = prog.fn(name)
	if f is None: raise AnalysisError("%s is gone" % name)
	ck = Sig(prog, f, mode)
	I = Interp(prog, [], budget=budget)
	I.checkers = [ck]
	I.models = dict(BASE_MODELS); I.models.update(contracts.all_models())
	E = own.EXT_MODELS
	I.models.update({"rewind": ck.m_rewind, "fseek": ck.m_fseek, "fseeko": ck.m_fseek, "fread": ck.m_fread, "feof": ck.m_feof, "ferror": ck.m_ferror, "fwrite": ck.m_fwrite,
		"EVP_DigestVerifyInit": ck.m_init, "EVP_DigestSignInit": ck.m_init, "EVP_DigestUpdate": ck.m_update, "EVP_DigestVerifyUpdate": ck.m_update, "EVP_DigestSignUpdate": ck.m_update,
		"EVP_DigestVerifyFinal": ck.m_vfinal, "EVP_DigestSignFinal": ck.m_sfinal, "PEM_read_PUBKEY": ck.m_newkey(E["PEM_read_PUBKEY"]), "__bswap_16": m_bswap})
	for n in ("loc_stringpool_write", "loc_stringpool_get_size"): I.models.pop(n, None)
	I.field_range = own.list_ranges(prog)
	def setup(I2, st, args):
		ck.arg0 = args[0][1]
		ck.arg1 = args[1][1]
	I.entry(f, setup)
	return ck, I
