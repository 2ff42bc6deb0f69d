"""Writes /verif/properties.jsonl (kept as a program so that it stays easy to edit)."""
import json, os
E = "extensisq/"
ALL = [E+f for f in ("common.py", "bogacki.py", "calvo.py", "cash.py", "merson.py",
                     "prince.py", "tsitouras.py", "shampine.py", "sommeijer.py",
                     "fine.py", "murua.py", "mikkawy.py", "hosea.py", "kennedy.py",
                     "kvaerno.py")]
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=[f if f.startswith(E) else E+f for f in files],
                          mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe:
        d["anchors"]["observe_at"] = observe
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    d["anchors"]["hook_needed"] = None
    assert len(title) <= 80, (id, len(title))
    P.append(d)


exec(open(os.path.join(os.path.dirname(__file__), "props_body.py")).read())
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
print(len(P), "properties")
