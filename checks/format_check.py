"""The database format: what is written is what is read. Provenance of fields (engine/flow.py), sections (engine/layout.py),
byte order of every access: P08; order of bisected sections: P10."""
import re
import own, flow, layout, initd, lookup, pool
from common import *

DISK = re.compile(r"loc_database_\w+_v1$")

class Rep:
	def __init__(self): self.reports = {}
	def add(self, rule, fn, line, msg, key):
		self.reports.setdefault((rule, fn.name, key), {"rule": rule, "file": fn.rel, "line": line or fn.line, "function": fn.name, "message": msg, "key": key, "path": [], "id": "%s:%s:%s" % (rule, fn.name, key)})

def disk_fields(p, s):
	return [(n, o, z, t) for n, o, z, t in p.structs[s]["fields"] if n != "padding" and not n.startswith("reserved")]

def expect(t, z):
	"""Conversion and width of a field in the file."""
	return ("", 8) if t.endswith("[]") or z == 1 else ("s%d" % (8 * z), 8 * z)

def name(l):
	s = l[0]
	return ("%s.%s" % (s[1], s[2]) if s[0] == "field" else "%s" % (s[1],)) + {"": "", "arith": " (changed)", "mixed": " (changed)"}.get(l[1], " (byte order of %s bits)" % l[1][1:])

def records(p, r, stats):
	"""Objects and their records: each field of the record comes from one field of the object, and goes back to the same one."""
	n = 0
	for w in sorted(p.ext):
		m = re.match(r"(loc_\w+)_to_database_v1$", w)
		if not m: continue
		rd = m.group(1) + "_new_from_database_v1"
		fw, fr = p.ext[w], p.ext.get(rd)
		if fr is None: raise AnalysisError("%s has no counterpart" % w)
		obj = m.group(1)
		disk = [t for t in (re.sub(r"const |struct |\*", "", t).strip() for t in fw.sig) if DISK.match(t)]
		if len(disk) != 1: raise AnalysisError("%s: record type not found" % w)
		disk = disk[0]
		W, R = flow.Flow(p, fw), flow.Flow(p, fr)
		mine = lambda ls, s, f: {l for l in ls if l[0] != ("field", s, f) and l[0][0] != "param"}
		back = {}
		for f, o, z, t in p.structs[obj]["fields"]:
			ls = {l for l in mine(R.types.get((obj, f), (0, ()))[1], obj, f) if l[0][0] == "field" and l[0][1] == disk}
			for l in ls: back.setdefault(l[0][2], []).append((f, l))
			if len({l[0] for l in ls}) > 1: r.add("read-mixed", fr, 0, "%s.%s is read from %s" % (obj, f, " and ".join(sorted(map(name, ls)))), f)
		for f, o, z, t in disk_fields(p, disk):
			n += 1
			ls = mine(W.types.get((disk, f), (0, ()))[1], disk, f)
			conv, width = expect(t, z)
			if not ls: r.add("not-written", fw, 0, "%s.%s is not written from the object" % (disk, f), f); continue
			if len({l[0] for l in ls}) > 1 or any(l[0][0] != "field" or l[0][1] != obj for l in ls): r.add("write-mixed", fw, 0, "%s.%s is written from %s" % (disk, f, " and ".join(sorted(map(name, ls)))), f); continue
			src = next(iter(ls))[0][2]
			for l in ls:
				if l[1] != conv: r.add("byte-order", fw, 0, "%s.%s is not written as a plain big-endian number: %s" % (disk, f, name(l)), f)
				elif l[2] < width: r.add("narrowed", fw, 0, "%s.%s keeps only %d bits" % (disk, f, l[2]), f)
			b = back.get(f, [])
			if not b: r.add("not-read", fr, 0, "%s.%s is written but not read" % (disk, f), f)
			for g, l in b:
				if g != src: r.add("read-other", fr, 0, "%s.%s is written from %s.%s but read into %s.%s" % (disk, f, obj, src, obj, g), f)
				elif l[1] != conv: r.add("byte-order", fr, 0, "%s.%s is not read as a plain big-endian number: %s" % (disk, f, name(l)), f)
				elif l[2] < width: r.add("narrowed", fr, 0, "%s.%s is read with only %d bits" % (disk, f, l[2]), f)
	if n < 6: raise AnalysisError("only %d fields of records were found" % n)
	stats["record fields"] = n

def header(p, r, stats, secs):
	fw, fr = p.ext.get("loc_writer_write"), p.ext.get("loc_database_new")
	if not fw or not fr: raise AnalysisError("the functions that write and open a database were not found")
	W, R = flow.Flow(p, fw, unit=fw.unit, named=("node",)), flow.Flow(p, fr, unit=fr.unit)
	H = "loc_database_header_v1"
	n = 0
	def one(tab, s, f):
		return {l for l in tab.types.get((s, f), (0, ()))[1] if l[0] != ("field", s, f)}
	def accessor(kind, f):
		g = p.ext.get(kind % f)
		return g and flow.Flow(p, g)
	for f, o, z, t in disk_fields(p, H):
		if f.endswith(("_offset", "_length")) or f.startswith("signature"): continue
		n += 1
		conv, width = expect(t, z)
		w = one(W, H, f)
		rd = [(g, l) for g in [x[0] for x in p.structs["loc_database"]["fields"]] for l in one(R, "loc_database", g) if l[0] == ("field", H, f)]
		if not w: r.add("not-written", fw, 0, "%s of the header is not set" % f, f); continue
		if not rd: r.add("not-read", fr, 0, "%s of the header is not read" % f, f); continue
		for who, ls in ((fw, w), (fr, {l for _, l in rd})):
			for l in ls:
				if l[1] != conv or l[2] < width: r.add("byte-order", who, 0, "%s of the header is not a plain big-endian number of %d bits: %s" % (f, width, name(l)), f)
		if len({l[0] for l in w}) > 1 or len({g for g, _ in rd}) > 1: r.add("write-mixed", fw, 0, "%s of the header: %s" % (f, sorted(map(name, w))), f); continue
		src = next(iter(w))[0]
		if src[0] == "field":
			# what is set under a name is what is got under this name
			for what in ("vendor", "description", "license"):
				S, G = accessor("loc_writer_set_%s", what), accessor("loc_database_get_%s", what)
				if S is None or G is None: raise AnalysisError("accessors of %s were not found" % what)
				sets = {k[1] for k, v in S.types.items() if k[0] == "loc_writer" and any(l[0] == ("param", 1) for l in v[1])}
				gets = {l[0][2] for l in G.ret[1] if l[0][0] == "field" and l[0][1] == "loc_database"}
				if (src[2] in sets) != (rd[0][0] in gets):
					r.add("read-other", fr, 0, "what loc_writer_set_%s sets is not what loc_database_get_%s returns" % (what, what), what)
		elif src[0] != "call": r.add("write-mixed", fw, 0, "%s of the header is set from %s" % (f, name((src, "", 0))), f)
	# the numbers of the children of a node
	for f in ("zero", "one"):
		w = one(W, "loc_database_network_node_v1", f)
		n += 1
		if {l[0] for l in w} != {("field", "node", "index_" + f)} or any(l[1] != "s32" or l[2] < 32 for l in w):
			r.add("node", fw, 0, "the child %s of a node is written from %s" % (f, ", ".join(sorted(map(name, w))) or "nothing"), f)
	# sections as they are read
	off = {x[0]: x[1] for x in p.structs["loc_database_objects"]["fields"]}
	where = {}
	heap = {b for (b, o), v in R.mem.items() if b[0] == "heap"}
	for f, o, z, t in p.structs["loc_database"]["fields"]:
		if t.replace("struct ", "") != "loc_database_objects": continue
		d = {l for b in heap for l in R.object(b, o + off["data"], 8) if l[0][0] == "field" and l[0][1] == H}
		ln = {l for b in heap for l in R.object(b, o + off["length"], 8) if l[0][0] == "field" and l[0][1] == H}
		ds, lns = {l[0][2] for l in d}, {l[0][2] for l in ln}
		n += 2
		if len(ds) != 1 or len(lns) != 1: r.add("section", fr, 0, "%s is mapped from %s, %s" % (f, sorted(ds), sorted(lns)), f); continue
		a, b = ds.pop(), lns.pop()
		if a[:-7] != b[:-7] or not a.endswith("_offset") or not b.endswith("_length"): r.add("section", fr, 0, "%s is mapped at %s with %s" % (f, a, b), f); continue
		if any(l[1] != "s32" for l in d | ln): r.add("byte-order", fr, 0, "%s or %s is not read as a big-endian number" % (a, b), f)
		where[f] = a[:-7]
	if len(where) + len([1 for k in r.reports if k[0] == "section"]) < 4: raise AnalysisError("only %d sections are mapped" % len(where))
	if len(set(where.values())) < len(where): r.add("section", fr, 0, "two sections are mapped at the same place", "twice")
	# record sizes used with each section
	idx = {i: x[0] for i, x in enumerate(p.structs["loc_database"]["fields"])}
	for g in p.repo_fns():
		for b in g.blocks:
			for i in b:
				if i.op not in ("call", "invoke"): continue
				fs = set()
				for a in i.d["a"]:
					gi = g.instrs.get(a[1]) if a[0] == "v" else None
					if gi is not None and gi.op == "getelementptr" and gi.d["gep"][5] and gi.d["gep"][5][-1][0] == "struct.loc_database": fs.add(idx.get(gi.d["gep"][5][-1][1]))
				fs &= set(where)
				if len(fs) != 1: continue
				f = fs.pop()
				for a in i.d["a"]:
					if a[0] == "i" and a[1] == 64 and a[2] > 1:
						n += 1
						want = {p.structs[t]["size"] for t in secs.get(where[f], ()) if t in p.structs}
						if want and a[2] not in want: r.add("record-size", g, i.ln, "records of %d bytes are read from the section %s, whose records have %s bytes" % (a[2], where[f], sorted(want)), f)
	# the string pool
	ok = False
	for (fn, iid, callee), al in R.calls.items():
		if callee == "loc_stringpool_open":
			ok = True
			for args in al:
				ds = {l[0][2] for l in args[2][1] if l[0][0] == "field" and l[0][1] == H}; ls = {l[0][2] for l in args[3][1] if l[0][0] == "field" and l[0][1] == H}
				if args[3][1] and (ds != {"pool_offset"} or ls != {"pool_length"}): r.add("section", fr, 0, "the string pool is mapped from %s, %s" % (sorted(ds), sorted(ls)), "pool")
				if any(l[1] != "s32" for l in args[2][1] | args[3][1] if l[0][0] == "field" and l[0][1] == H): r.add("byte-order", fr, 0, "the place of the string pool is not read as big-endian numbers", "pool")
	if not ok: raise AnalysisError("the string pool is not opened")
	stats["header fields and sections"] = n

def byte_order(p, r, stats):
	"""No number in the file's byte order is used as it is."""
	n = 0
	for g in p.repo_fns():
		if g.unit.group != "lib": continue
		raw = {}
		disk_ptr = lambda v: tag(p, g, v)
		changed = True
		cells = {}
		while changed:
			changed = False
			for b in g.blocks:
				for i in b:
					x = None
					if i.op == "load":
						t = disk_ptr(i.d["a"][0])
						if t and isinstance(i.ty, int) and i.ty > 8: x = (t, i.ty)
						elif i.d["a"][0][0] == "v" and i.d["a"][0][1] in cells: x = cells[i.d["a"][0][1]]
					elif i.op in ("zext", "sext", "trunc", "freeze"): x = raw.get(i.d["a"][0][1]) if i.d["a"][0][0] == "v" else None
					elif i.op == "phi":
						for y, _ in i.d["in"]:
							if y[0] == "v" and y[1] in raw: x = raw[y[1]]
					elif i.op == "select":
						for y in i.d["a"][1:]:
							if y[0] == "v" and y[1] in raw: x = raw[y[1]]
					elif i.op == "store" and i.d["a"][0][0] == "v" and i.d["a"][0][1] in raw and i.d["a"][1][0] == "v" and i.d["a"][1][1] in g.allocas:
						k = i.d["a"][1][1]
						if k not in cells: cells[k] = raw[i.d["a"][0][1]]; changed = True
					if x and i.id not in raw: raw[i.id] = x; changed = True
		for b in g.blocks:
			for i in b:
				ops = [a for a in i.d.get("a", ()) if a[0] == "v" and a[1] in raw] if isinstance(i.d.get("a"), list) else []
				if i.op == "load" and i.id in raw: n += 1
				if not ops: continue
				f, w = raw[ops[0][1]]
				if i.op in ("zext", "sext", "trunc", "freeze", "phi", "select", "load"): continue
				if i.op == "store":
					if i.d["a"][1][0] == "v" and i.d["a"][1][1] in g.allocas or disk_ptr(i.d["a"][1]): continue
				elif i.op == "icmp":
					if all(a[0] == "v" and a[1] in raw or a[0] == "i" and a[2] in (0, -1, 0xffffffff, 0xffff) or swapped(g, a) for a in i.d["a"]) and i.d["pred"] in ("eq", "ne"): continue
				elif i.op in ("call", "invoke"):
					sw = flow.swap_width(i.d.get("fn"))
					if sw == w: continue
					if sw: r.add("byte-order", g, i.ln, "%s.%s has %d bits but %d are swapped" % (f + (w, sw)), "%s.%s" % f); continue
				elif i.op == "switch" or i.op == "ret": pass
				r.add("byte-order", g, i.ln, "%s.%s is used without converting it from the file's byte order" % f, "%s.%s" % f)
			for i in b:
				if i.op != "store": continue
				t = disk_ptr(i.d["a"][1])
				if not t or not isinstance(i.d.get("sty"), int) or i.d["sty"] <= 8: continue
				n += 1
				if not big(p, g, i.d["a"][0], i.d["sty"], set()): r.add("byte-order", g, i.ln, "%s.%s is stored without converting it to the file's byte order" % t, "%s.%s" % t)
	if n < 30: raise AnalysisError("only %d accesses to fields of the file were found" % n)
	stats["field accesses"] = n

def tag(p, g, v):
	if v[0] == "gep": x = v
	elif v[0] == "v":
		i = g.instrs.get(v[1])
		if i is None or i.op != "getelementptr": return None
		x = i.d["gep"]
	else: return None
	if not x[5]: return None
	s = x[5][-1][0].replace("struct.", "").split(".")[0]
	if not DISK.match(s) or s not in p.structs or x[5][-1][1] >= len(p.structs[s]["fields"]): return None
	f = p.structs[s]["fields"][x[5][-1][1]]
	if f[3].endswith("[]"): return None
	return (s, f[0])

def swapped(g, a):
	if a[0] != "v": return False
	i = g.instrs.get(a[1])
	if i is None: return False
	if i.op in ("zext", "sext", "trunc"): return swapped(g, i.d["a"][0])
	return i.op == "call" and bool(flow.swap_width(i.d.get("fn")))

def big(p, g, v, w, seen):
	"""Whether a value is a number of w bits in the file's byte order."""
	if v[0] == "i": return v[2] in (0, -1) or v[2] == (1 << w) - 1
	if v[0] != "v": return False
	if v[1] in seen: return True
	seen.add(v[1])
	i = g.instrs.get(v[1])
	if i is None: return False
	if i.op in ("call", "invoke"):
		sw = flow.swap_width(i.d.get("fn"))
		if sw: return sw == w
		b = p.lookup(g.unit, i.d.get("fn")) if i.d.get("fn") else None
		return b is not None and all(big(p, b, x.d["a"][0], w, set()) for blk in b.blocks for x in blk if x.op == "ret" and x.d.get("a"))
	if i.op == "phi": return all(big(p, g, x, w, seen) for x, _ in i.d["in"])
	if i.op == "select": return all(big(p, g, x, w, seen) for x in i.d["a"][1:])
	if i.op in ("trunc", "zext", "sext"): return i.op != "sext" and isinstance(i.ty, int) and big(p, g, i.d["a"][0], w, seen)
	if i.op == "load":
		if tag(p, g, i.d["a"][0]): return True
		if i.d["a"][0][0] == "v" and i.d["a"][0][1] in g.allocas:
			st = [x for blk in g.blocks for x in blk if x.op == "store" and x.d["a"][1] == i.d["a"][0]]
			return bool(st) and all(big(p, g, x.d["a"][0], w, seen) for x in st)
	return False

def fifo(p, r, stats):
	bad, n = layout.queues(p, "src/writer.c")
	for g, i, msg in bad: r.report("queue", g.rel, i.ln, g.name, msg, key=msg)
	stats["queue accesses"] = n

def fields(tier):
	p = program("lib")
	rep, stats = Rep(), {}
	ck, I = layout.writing(p, own.Contracts(p), budget=250000 if tier == "quick" else 1500000)
	for k in ("section offsets checked", "section lengths checked", "successful returns checked"):
		if not ck.stats.get(k): raise AnalysisError("no %s" % k)
	records(p, rep, stats)
	header(p, rep, stats, ck.secs)
	byte_order(p, rep, stats)
	r = Result()
	r.rules = ["byte-order", "narrowed", "not-written", "not-read", "read-other", "write-mixed", "read-mixed", "section", "node", "record-size", "offset", "length", "mixed", "pool", "string", "index", "skipped", "queue"]
	r.take(rep, lambda x: True)
	r.take(ck, lambda x: x["rule"] in ("offset", "length", "mixed", "pool", "index", "skipped"))
	stats.update(ck.stats)
	fifo(p, r, stats)
	for c in pool.strings(p, own.Contracts(p)):
		r.take(c)
		if not (c.stats.get("offsets handed out") or c.stats.get("strings handed out")): raise AnalysisError("the string pool hands nothing out")
		stats.update(c.stats)
	r.obligations = sum(stats.values())
	r.coverage = dict(sections={k: sorted(v) for k, v in ck.secs.items()}, abstract_steps=I.steps, **{k.replace(" ", "_"): v for k, v in stats.items()})
	r.explanation = "provenance of every field of every record, forwards (object to file) and backwards, with byte swaps and their width; position and length of every section while it is written, by abstract interpretation; conversion of every single access to a multi-byte field of the file"
	r.assumptions = ["sections lie below 4 GiB"]
	return r

def initialised(tier):
	p = program("lib")
	ck, I = initd.run(p, own.Contracts(p), budget=250000 if tier == "quick" else 1500000)
	if not ck.stats.get("buffers checked") or len(ck.buffers) < 5: raise AnalysisError("the buffers that are written were not found")
	r = Result()
	r.rules = ["uninitialised"]
	r.take(ck, lambda x: x["rule"] == "uninitialised")
	r.obligations = ck.stats["buffers checked"]
	r.coverage = dict(buffers=sorted(ck.buffers), abstract_steps=I.steps, **{k.replace(" ", "_"): v for k, v in ck.stats.items()})
	r.explanation = "set of bytes of every local buffer that have been stored to, at every call that writes or signs it, on every abstract path of the writing function with its helpers and the conversions of all records inlined"
	r.assumptions = ["a store at an offset that is not constant sets the bytes it may set"]
	return r

def findable(tier):
	p = program("lib")
	c = own.Contracts(p)
	b = 100000 if tier == "quick" else 600000
	r = Result()
	r.rules = ["unsorted", "skipped", "index", "queue", "sort", "order", "not-found"]
	st = {}
	def add(ck):
		for k, v in ck.stats.items(): st[k] = st.get(k, 0) + v
	ck, I = layout.writing(p, c, budget=2 * b)
	r.take(ck, lambda x: x["rule"] in ("unsorted", "skipped", "index")); add(ck)
	fifo(p, r, st)
	for a in (("loc_as_list_sort", "loc_as_list", "loc_as", "number"), ("loc_country_list_sort", "loc_country_list", "loc_country", None)):
		for ck in lookup.sorting(p, c, *a, budget=b): r.take(ck); add(ck)
	for a in (("loc_database_get_as", "as_objects", "loc_database_as_v1", "loc_as_new_from_database_v1", "number"), ("loc_database_get_country", "country_objects", "loc_database_country_v1", "loc_country_new_from_database_v1", None)):
		ck, I2 = lookup.lookup(p, c, *a, budget=b)
		if not ck.stats.get("records fetched"): raise AnalysisError("%s fetches no record" % a[0])
		r.take(ck); add(ck)
	for k in ("elements checked", "lists checked", "node numbers checked", "nodes checked", "sorts checked", "orders checked", "returns checked"):
		if not st.get(k): raise AnalysisError("no %s" % k)
	r.obligations = sum(st.values())
	r.coverage = {k.replace(" ", "_"): v for k, v in st.items()}
	r.explanation = "position in the list of every record written, order of the lists, sign of their comparisons, numbering of the nodes and networks of the tree while they are written, and loop invariants of both bisections: the wanted record is never left out of the range that is still searched"
	r.assumptions = ["qsort() sorts", "keys are unique", "fewer than 2^31 records are written"]
	return r
