"""Runs under Jython 2.7: parses Python 2 sources with the interpreter's own
parser and dumps the syntax trees as JSON, for the symbolic executor.

    jython dump_ast.py OUT.json NAME=PATH [NAME=PATH ...]
"""
import ast
import json
import sys


def java_fields(node, names):
    """Jython does not expose DictComp's fields to Python: use Java beans."""
    from java.beans import Expression
    out = {"_": repr(node), "lineno": 1}
    for name in names:
        getter = "getInternal" + name[0].upper() + name[1:]
        value = Expression(node, getter, []).getValue()
        if name == "generators":
            value = list(value)
        out[name] = conv(value)
    return out


def conv(node):
    if not isinstance(node, ast.AST) and repr(node) == "DictComp":
        return java_fields(node, ["key", "value", "generators"])
    if isinstance(node, ast.AST):
        out = {"_": node.__class__.__name__}
        for field in (node._fields or ()):
            out[field] = conv(getattr(node, field, None))
        if hasattr(node, "lineno"):
            out["lineno"] = int(node.lineno or 1)
        return out
    if isinstance(node, (list, tuple)):
        return [conv(x) for x in node]
    if isinstance(node, str):
        return {"_s": node.decode("latin-1")}
    if isinstance(node, unicode):
        return {"_u": node}
    if isinstance(node, bool) or node is None:
        return node
    if isinstance(node, (int, long)):
        return {"_i": str(node)}
    if isinstance(node, float):
        return {"_f": repr(node)}
    if isinstance(node, complex):
        return {"_c": repr(node)}
    raise TypeError(repr(node))


def main(argv):
    out = {}
    for arg in argv[2:]:
        name, path = arg.split("=", 1)
        source = open(path, "rU").read()
        if not source.endswith("\n"):
            source += "\n"
        try:
            tree = conv(ast.parse(source, path))
        except SyntaxError, e:
            tree = {"_": "SyntaxError", "msg": str(e)}
        out[name] = {"path": path, "tree": tree}
    f = open(argv[1], "w")
    f.write(json.dumps(out))
    f.close()


main(sys.argv)
