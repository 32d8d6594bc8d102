"""Regenerates properties.jsonl from proptable.py (run by hand)."""
import json,os
P=[]
HERE=os.path.dirname(os.path.abspath(__file__))
def p(id,title,statement,over,qtext,why,files,mech):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
       anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech])))
exec(open(os.path.join(HERE,"proptable.py")).read())
with open(os.path.join(HERE,"properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
