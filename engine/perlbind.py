"""The Perl module: references of the library and of Perl across returns and croaks, NULL, reported failures.
What is analysed is the C code xsubpp makes out of Location.xs."""
from absint import *
from absint import site
import own
from binding import *
from own import releaser
from frontend import AnalysisError

def entries(prog):
	return [f for f in prog.repo_fns() if f.unit.group == "perl" and f.name.startswith("XS_")]

class PerlBinding(Binding):
	ASN_IN = False	# Perl's numbers are converted by the typemap
	def __init__(self, prog, contracts, owning, entry, role):
		super().__init__(prog, contracts, owning, entry, role)
		self.models.update(MODELS)
	def settle(self, I, st, fr, ins):
		for r in list(st.own):
			if st.own[r] > 0:
				self.on_leak(I, st, fr, ins, r)
				del st.own[r]
		self.fields_at_exit(I, st, fr, ins)
	def before_exit(self, I, st, fr, ins, v):
		if fr.parent is not None: return
		self.count("exit states")
		k = st.ts.get(("out", 0), "nothing")
		if k != "undef": self.result(I, st, fr, ins, k)
		self.settle(I, st, fr, ins)
	def on_noreturn(self, I, st, fr, ins, name):
		self.count("croaks")
		self.settle(I, st, fr, ins)
	def on_store(self, I, st, fr, ins, ptr, size, val):
		super().on_store(I, st, fr, ins, ptr, size, val)
		if size != 8 or ptr[0] != "p" or val[0] != "p" or ptr[1][0] not in "DH" or fr.parent is not None: return
		if st.meta.get(ptr[1], {}).get("ty") in ("PerlInterpreter", "interpreter", "struct interpreter"): return
		m = st.meta.get(val[1], {})
		k = m.get("sv")
		if k is None and m.get("ty") in ("PerlInterpreter", "interpreter", "struct interpreter") and is_const(val[2]):
			k = self.immortal(val[2][1])
		if k: st.ts[("out", 0)] = k
	def immortal(self, off):
		for n, o, sz, ty in self.prog.structs.get("interpreter", {}).get("fields", ()):
			if n.startswith("Isv_") and o <= off < o + sz:
				if n == "Isv_immortals": return ("yes", "no", "undef", "zero")[(off - o) // (sz // 4)]
				return n[4:]
		return None
	def describe(self, I, st, rid):
		m = st.meta.get(rid, {})
		if m.get("cls") == "SV": return "Perl value made at line %s (%s)" % (m.get("ln"), m.get("fn"))
		if m.get("cls") == "selfdb": return "the database of the Perl object"
		return super().describe(I, st, rid)

def m_sviv(I, fr, st, ins, args):
	ck = I.checkers[0]
	slots = {i.d["a"][1][1] for b in fr.fn.blocks for i in b if i.op == "store" and tuple(i.d["a"][0]) == ("v", ins.id) and i.d["a"][1][0] == "v"}
	loads = {i.id for b in fr.fn.blocks for i in b if i.op == "load" and i.d["a"][0][0] == "v" and i.d["a"][0][1] in slots}
	for b in fr.fn.blocks:
		for i in b:
			if i.op == "inttoptr" and i.d["a"][0][0] == "v" and i.d["a"][0][1] in loads | {ins.id}:
				if ck.role == "DESTROY":
					p = I.new_heap(st, site(fr, ins), cls="selfdb", ln=ins.ln, fn=fr.fn.name)
					st.nonnull |= {p[1]}
					st.meta[p[1]] = dict(st.meta[p[1]], ty="struct loc_database", cls="loc_database")
				else:
					p = I.fresh_ptr(st, "struct loc_database", nonnull=True)
				ck.count("objects taken from Perl")
				return [(st, ("pi", p))]
	return [(st, I.fresh(st, -(1 << 63), (1 << 63) - 1))]

def m_newsv(asn=None):
	def f(I, fr, st, ins, args):
		ck = I.checkers[0]
		for a in args:
			if a == UNDEF: I.undef_use(st, fr, ins, "argument of %s" % ins.d.get("fn")); return []
		if ins.d["fn"] in ("Perl_newSVpv", "Perl_newSVpvn"):
			a = I.resolve(st, args[-2])
			if a == NULL and not (len(args) > 1 and args[-1] == C(0)):
				I.null_use(st, fr, ins, "argument of newSVpv") if hasattr(I, "null_use") else ck.on_null(I, st, fr, ins, "argument of newSVpv")
		if asn: ck.give_asn(I, st, fr, ins, args[-1], asn[0], asn[1], "through %s" % ins.d["fn"])
		p = I.new_heap(st, site(fr, ins), cls="SV", ln=ins.ln, fn=fr.fn.name, sv="value")
		return [(st, p)]
	return f

def m_mortal(I, fr, st, ins, args):
	p = args[-1]
	if p == UNDEF: I.undef_use(st, fr, ins, "argument of sv_2mortal"); return []
	if p[0] == "p" and st.meta.get(p[1], {}).get("cls") == "SV":
		ck = I.checkers[0]
		if st.own.get(p[1], 0) > 0:
			st.own[p[1]] -= 1
			if not st.own[p[1]]: del st.own[p[1]]
		else:
			ck.report("over-release", fr.fn, ins, "a Perl value is made mortal that is mortal already", st, key="mortal")
	return [(st, p)]

def m_newmortal(I, fr, st, ins, args):
	return [(st, I.fresh_ptr(st, nonnull=True, sv="undef"))]

def m_setpv(I, fr, st, ins, args):
	p = args[1]
	if args[2] == UNDEF: I.undef_use(st, fr, ins, "argument of sv_setpv"); return []
	v = I.resolve(st, args[2])
	if p[0] == "p" and v != NULL: st.meta[p[1]] = dict(st.meta[p[1]], sv="value")
	return [(st, None)]

def m_setref(I, fr, st, ins, args):
	ck = I.checkers[0]
	p, v = args[1], args[3]
	if v == UNDEF: I.undef_use(st, fr, ins, "argument of sv_setref_pv"); return []
	v = I.resolve(st, v)
	ck.count("objects given to Perl")
	if v == NULL:
		ck.report("null", fr.fn, ins, "a Perl object is made without a database", st, key="setref")
	elif v[0] == "p" and v[1][0] in "DH":
		if st.own.get(v[1], 0) > 0:
			st.own[v[1]] -= 1
			if not st.own[v[1]]: del st.own[v[1]]
			st.held[v[1]] = own.held(I, st, v[1]) + 1
		else:
			ck.report("borrowed-return", fr.fn, ins, "a Perl object is made from a reference that is not its own", st, key="setref")
	if p[0] == "p": st.meta[p[1]] = dict(st.meta[p[1]], sv="object")
	return [(st, p)]

def m_stack(I, fr, st, ins, args):
	return [(st, I.fresh_ptr(st, nonnull=True))]

MODELS = dict(LIBC)
MODELS.update({
	"Perl_POPMARK": pure(0, 1 << 20), "Perl_SvIV": m_sviv, "Perl_SvUV": pure(0, (1 << 64) - 1), "Perl_SvPV_helper": pure(nonnull=True), "Perl_SvGETMAGIC": pure(), "Perl_mg_set": pure(), "Perl_mg_get": pure(),
	"Perl_newSVpv": m_newsv(), "Perl_newSVpvn": m_newsv(), "Perl_newSViv": m_newsv((False, 64)), "Perl_newSVuv": m_newsv((True, 64)), "Perl_newSVnv": m_newsv(),
	"Perl_sv_2mortal": m_mortal, "Perl_sv_newmortal": m_newmortal, "Perl_sv_setpv": m_setpv, "Perl_sv_setref_pv": m_setref,
	"Perl_stack_grow": m_stack, "Perl_sv_2iv_flags": pure(-(1 << 63), (1 << 63) - 1), "Perl_sv_2uv_flags": pure(0, (1 << 64) - 1),
})

def analyse(prog, contracts, owning, f, budget=250000):
	ck = PerlBinding(prog, contracts, owning, f, f.name.rsplit("_", 1)[-1] if f.name.endswith("DESTROY") else f.name)
	I = Interp(prog, [], budget=budget)
	I.checkers = [ck]
	I.models = dict(BASE_MODELS); I.models.update(ck.models)
	I.field_range = own.list_ranges(prog)
	I.field_hook = ck.field_hook
	I.set_hook = ck.set_hook
	I.entry(f)
	ck.finish()
	return ck, I
