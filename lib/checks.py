"""The registry of the checks."""
import json
import checks_lexer, checks_tree, checks_ledger, checks_crypto, checks_roots, checks_scripts

CHECKS = {}
for module in (checks_lexer, checks_tree, checks_ledger, checks_crypto, checks_roots, checks_scripts):
    for name in dir(module):
        if len(name) == 3 and name[0].isupper() and name[1:].isdigit():
            CHECKS[name] = getattr(module, name)


def replay(path):
    """executes the case of a replay file again"""
    import vlib
    with open(path) as f:
        v = json.load(f)
    case = v["case"]
    request = case["request"] if isinstance(case, dict) and "request" in case else case
    ctx = vlib.Ctx("replay", "quick", 1)
    print(v["what"])
    print("expected: " + json.dumps(v["expected"]))
    print("recorded: " + json.dumps(v["actual"]))
    print("now:      " + json.dumps(ctx.run([tuple(request)])[0]))
    return 0
