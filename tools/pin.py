"""Record the local variables of the functions under contract (name, type, in order): specs/locals.json."""
import sys, json, tempfile
sys.path.insert(0, '/verif')
from cv import front, spec
from cv.trans import var_decls
with tempfile.TemporaryDirectory() as d:
    front.gen_headers(d)
    P = front.Program(list(front.TUS), d)
quals = {s.qual for s in spec.load('/verif/specs')}
out = {f.sig: [[n, t] for _, n, t in var_decls(f.body)] for f in P.fns.values() if f.qual in quals and f.body is not None}
json.dump(out, open('/verif/specs/locals.json', 'w'), indent=0, sort_keys=True)
