"""The Python code: P21 (names and interfaces exist)."""
import ast, builtins, re
import pynames
from common import *

BUILTINS = [str, int, bytes, dict, list, set, tuple, float, bool, bytearray, frozenset, type(None)]

def keep(rule, msg, submodules):
	"""Whether pyright's finding means that the statement cannot work (rather than that a type is imprecise)."""
	first = msg.split("\n")[0]
	if rule in ("reportUndefinedVariable", "reportUnboundVariable"): return True
	if rule == "reportCallIssue": return not first.startswith("No overloads") and "overload" not in first.lower()
	if rule == "reportAttributeAccessIssue":
		m = re.match(r'"(\w+)" is not a known attribute of module "([\w.]+)"', first)
		if m: return "%s.%s" % (m.group(2), m.group(1)) not in submodules
		m = re.match(r'Cannot (access|assign to|delete) attribute "(\w+)" for class "(.*?)"', first)
		if m:
			if m.group(1) == "access":
				c = re.sub(r"^type\[(.*)\]$", r"\1", m.group(3)).split("[")[0].rstrip("*")
				b = getattr(builtins, c, None)
				if b in BUILTINS or c == "None": return not any(hasattr(x, m.group(2)) for x in BUILTINS)
				return "FunctionType" not in c and "MethodType" not in c
			return "setter" in msg or "read-only" in msg or "property" in msg or "is unknown" in msg
		return "unknown import symbol" in first
	return False

def names(tier):
	r = Result()
	p = program("python")
	I = pynames.interface(p)
	diags, summary, lines = pynames.pyright(I)
	k = pynames.Classes()
	files = k.files
	sub = set()
	for rel in files.values():
		for n in ast.walk(pynames.tree(rel)):
			if isinstance(n, ast.Import):
				for a in n.names:
					if "." in a.name: sub.add(a.name)
			elif isinstance(n, ast.ImportFrom) and n.module and not n.level:
				sub.add(n.module)
				for a in n.names: sub.add(n.module + "." + a.name)
	def fn_at(rel, line):
		best = ""
		for c in ast.walk(pynames.tree(rel)):
			if isinstance(c, (ast.FunctionDef, ast.ClassDef)) and c.lineno <= line <= c.end_lineno: best = c.name if isinstance(c, ast.FunctionDef) else best or c.name
		return best or "module"
	for rel, line, rule, msg, sev in diags:
		if rule == "syntax" or rule is None: raise AnalysisError("%s:%d: %s" % (rel, line, msg))
		if rel not in files.values(): raise AnalysisError("%s:%d: %s" % (rel, line, msg))
		if keep(rule, msg, sub):
			r.report({"reportUndefinedVariable": "undefined-name", "reportCallIssue": "call"}.get(rule, "attribute"), rel, line, fn_at(rel, line), msg.split("\n")[0], key=msg.split("\n")[0])
	ov, n1 = pynames.overridden_properties(k)
	for rel, line, fn, msg, key in ov: r.report("read-only", rel, line, fn, msg, key=key)
	n2 = 0
	for rel in files.values():
		o, n = pynames.formats(rel); n2 += n
		for line, msg in o: r.report("format", rel, line, fn_at(rel, line), msg, key=msg)
	for rel in files.values():
		o, n = pynames.exception_attributes(rel); n2 += n
		for line, msg in o: r.report("attribute", rel, line, fn_at(rel, line), msg, key=msg)
	o = pynames.options(k)
	if o is None: raise AnalysisError("the command line's options cannot be read")
	opt, n3 = o
	if n3 < 5: raise AnalysisError("only %d options found" % n3)
	for rel, line, fn, msg, key in opt: r.report("option", rel, line, fn, msg, key=key)
	nattr = sum(isinstance(x, ast.Attribute) for rel in files.values() for x in ast.walk(pynames.tree(rel)))
	ncall = sum(isinstance(x, ast.Call) for rel in files.values() for x in ast.walk(pynames.tree(rel)))
	nname = sum(isinstance(x, ast.Name) for rel in files.values() for x in ast.walk(pynames.tree(rel)))
	r.obligations = nattr + ncall + nname + n1 + n2 + n3
	r.coverage = dict(files=sorted(files.values()), names=nname, attributes=nattr, calls=ncall, self_assignments=n1, formatted_texts=n2, options=n3,
		extension_types=len(I["classes"]), extension_constants=len(I["consts"]), extension_functions=len(I["functions"]))
	r.rules = ["undefined-name", "attribute", "call", "read-only", "format", "option"]
	r.explanation = "type checking of every Python source against the standard library and against the extension module's interface, which is read from its method, getter/setter and type tables in LLVM IR; plus queries over the syntax tree for read-only properties, formatted texts and command line options"
	r.assumptions = ["the interface of psycopg is not checked", "values whose type cannot be inferred have every attribute", "parameters named db and network in the library and the command line tool hold a Database and a Network"]
	return r
