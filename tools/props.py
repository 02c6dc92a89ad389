"""Source of properties.jsonl and MANIFEST.json: python3 tools/props.py"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, over, qtext, why, files, mech, state, observe, technique, note, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               observe_at=observe, hook_needed=hook),
                  _t=technique, _n=note))

exec(open(os.path.join(HERE, "tools", "props_data.py")).read())

NA = []
def main():
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}, ensure_ascii=False)+"\n")
    m = dict(version=1, setup_cmd="bash bin/setup",
             checks=[dict(property=p["id"], quick_cmd="bin/check %s --tier quick" % p["id"],
                          thorough_cmd="bin/check %s --tier thorough" % p["id"],
                          technique=p["_t"], level="exploration", level_note=p["_n"])
                     for p in P if os.path.exists(os.path.join(HERE, "checks", p["id"].lower()+".py"))],
             not_applicable=[dict(property=a, reason=b) for a, b in NA])
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
main()
