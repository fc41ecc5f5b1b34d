import subprocess, json
log=subprocess.run(['git','-C','/repo','log','--format=%h|%s','6eece41..'],capture_output=True,text=True).stdout.strip().split('\n')[::-1]
P={'D(k) flags':'C11','D(k) detects':'C11'}
import re
rules=[('D(k)','C11'),('LazyDirectSum keeps','C08'),('inverse transpose of a sum','C07'),('inverse transpose of a scaled','C07'),('Lazy adjoint','C07'),('adjoints of structured','C08'),('only _rmatmat','C07'),('does not exist','C07'),('SwapMatrix','C08'),
('Scalar with a group','C16'),('comparing a SumRep','C06'),('instantiating a SumRep','C16'),('share a repr','C06'),('different classes','C06'),('Embed keeps','C10'),('SU(1)','C09'),('gating works','C13'),('bilinear_weights accepts','C12'),('strict total order','C06'),
('order within each','C02'),('RubiksCube','C10'),('single precision SVD','C05'),('imaginary part','C01'),('default drho accepts','C04'),('inverse transposes of Kronecker','C03'),('without columns','C05'),('jax scalars','C07'),('without generators','C10'),('not in canonical order','C13'),('torchified','C17')]
out=[]
for l in log:
    h,s=l.split('|',1)
    p=[b for a,b in rules if a in s]
    assert p,s
    out.append(f"fixed: property={p[0]} {h} {s[5:]}")
json.dump(dict(findings=[],fixed=out),open('/verif/known-findings.json','w'),indent=1)
print(len(out))
