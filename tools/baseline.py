"""records the numeric literals of the source (run once on the unchanged tree)"""
import ast, io, json, os
out = set()
for d in ('geometry', 'SR_Vessel'):
    p = os.path.join('/repo', d)
    for f in sorted(os.listdir(p)):
        if f.endswith('.py'):
            for n in ast.walk(ast.parse(io.open(os.path.join(p, f), encoding='utf-8').read())):
                if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
                    out.add(repr(float(n.value)))
json.dump(sorted(out), open('/verif/vc/baseline_consts.json', 'w'))
