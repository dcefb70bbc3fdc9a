"""Shared helpers of the checks."""
import os
import frontend
from frontend import AnalysisError, REPO

class Result:
	def __init__(self, level="other"):
		self.level = level
		self.reports = []
		self.coverage = {}
		self.obligations = 0
		self.rules = []
		self.assumptions = []
		self.explanation = ""
	def report(self, rule, file, line, function, message, key="", path=()):
		for r in self.reports:
			if (r["rule"], r["function"], r["key"]) == (rule, function, key): return
		self.reports.append(dict(rule=rule, file=file, line=line, function=function, message=message, key=key, path=list(path)))
	def take(self, ck, keep=None):
		"""Adopts the reports of an engine checker."""
		for r in ck.reports.values():
			if keep is None or keep(r):
				f = r["file"]
				if f.startswith(REPO + "/"): f = f[len(REPO) + 1:]
				self.report(r["rule"], f, r["line"], r["function"], r["message"], r["key"], r["path"])

_prog = {}
def program(*groups):
	if groups not in _prog:
		_prog[groups] = frontend.Program(groups)
	return _prog[groups]

def parallel(fn, items, n=8):
	"""Runs fn over items in forked workers; results in order."""
	import multiprocessing as mp
	global _work
	_work = fn
	with mp.get_context("fork").Pool(n) as p:
		return p.map(_call, list(items), chunksize=1)
def _call(x):
	try:
		return _work(x)
	except AnalysisError as e:
		return ("ERR", str(e))
