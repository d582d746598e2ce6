"""functions of /repo that no unit puts under contract (from the evidence files)"""
import ast, glob, json, os, sys
have = set()
for f in glob.glob('/verif/evidence/C*.json'):
    have |= set(json.load(open(f))['coverage']['functions_under_contract'])
n = m = 0
for root, _, files in os.walk('/repo/necroassembler'):
    for f in sorted(files):
        if not f.endswith('.py'):
            continue
        p = os.path.join(root, f)
        mod = os.path.relpath(p, '/repo')[:-3].replace('/', '.')
        miss = []

        def walk(node, pre):
            global n, m
            for x in getattr(node, 'body', []):
                if isinstance(x, ast.ClassDef):
                    walk(x, pre + x.name + '.')
                elif isinstance(x, ast.FunctionDef):
                    q = mod + '.' + pre + x.name
                    n += 1
                    if q in have:
                        m += 1
                    else:
                        miss.append(pre + x.name)
        walk(ast.parse(open(p).read()), '')
        if miss:
            print(mod, miss)
print('%d of %d functions under contract or interpreted in a unit' % (m, n))
