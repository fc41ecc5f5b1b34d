import json,sys
sys.path.insert(0,'/verif')
from props.meta import META
lv={k:v['level'] for k,v in META.items()}
T={'exploration':'runtime contracts on the real functions against an independent dense oracle (bounded)','proof':'contract-based deductive verification: symbolic execution of the real functions, z3/term algebra discharge; bounded concrete layer on top'}
note={'exploration':'bounded: contracts evaluated on concrete executions, nothing claimed as proved'}
N=json.load(open('/verif/props/notes.json')) if __import__('os').path.exists('/verif/props/notes.json') else {}
checks=[dict(property=p,quick_cmd=f"/opt/venv/bin/python check.py {p} --tier quick",thorough_cmd=f"/opt/venv/bin/python check.py {p} --tier thorough",technique=N.get(p,{}).get('technique',T[lv[p]]),level=lv[p],level_note=N.get(p,{}).get('note',note.get(lv[p],''))) for p in META]
na=[dict(property='C20',reason='termination and completeness (up to a tolerance) of a floating-point randomised power/gradient iteration: convergence is a liveness property over float arithmetic, outside what function contracts and a deductive verifier can state and discharge; the code additionally relies on the decay of random initialisations')]
json.dump(dict(version=1,setup_cmd="true",checks=checks,not_applicable=na),open('/verif/MANIFEST.json','w'),indent=1)
