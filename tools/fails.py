"""group the failing cases of a check by message prefix: tools/fails.py C01 [tier]"""
import sys, os, collections, json, re
from pathlib import Path; sys.path[:0]=[os.environ["MC_REPO"], str(Path(__file__).resolve().parent.parent)]
import importlib
from mc import core
prop=sys.argv[1]; tier=sys.argv[2] if len(sys.argv)>2 else "quick"
mod=importlib.import_module(f"checks.{prop.lower()}")
core._SPACES=[s for s in mod.spaces(tier) if not os.environ.get("SPACES") or s.name in os.environ["SPACES"].split(",")]
import multiprocessing as mp, tempfile, shutil
root=tempfile.mkdtemp()
g=collections.defaultdict(list)
with mp.get_context("fork").Pool(8, initializer=core._init_worker, initargs=(root,)) as pool:
    for si,out in pool.imap_unordered(core._run_chunk, core._chunks(core._SPACES, 20)):
        for o,f,s,st,case in out:
            if f: g[core._SPACES[si].name+": "+re.sub(r"\d+","#",f)[:90]].append((case,f))
shutil.rmtree(root)
for k,v in sorted(g.items(), key=lambda kv:-len(kv[1]))[:40]:
    print(len(v),k); 
    for case,f in v[:1]: print("     ",core.short(case,220)); print("        ",f[:260])
