"""Generates small syntactic mutants of the library as (file, line, description, new source)."""
import ast
import copy
import os

FILES = ["session_manager.py", "storage.py", "backend.py", "identity_key_pair.py"]
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
       ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add, ast.BitOr: ast.BitAnd, ast.BitAnd: ast.BitOr}
LOG = ("logging",)


def is_doc(node):
    return isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant)


def is_log(node):
    return isinstance(node, ast.Expr) and "logging.getLogger" in ast.unparse(node)


class Source:
    def __init__(self, text):
        self.text = text
        self.lines = text.splitlines(keepends=True)
        self.offsets = [0]
        for line in self.lines:
            self.offsets.append(self.offsets[-1] + len(line.encode()))
        self.bytes = text.encode()

    def replace(self, node, new):
        a = self.offsets[node.lineno - 1] + node.col_offset
        b = self.offsets[node.end_lineno - 1] + node.end_col_offset
        return (self.bytes[:a] + new.encode() + self.bytes[b:]).decode()


def mutants_of(path):
    with open(path, encoding="utf-8") as f:
        text = f.read()
    src = Source(text)
    tree = ast.parse(text)
    parents = {}
    for node in ast.walk(tree):
        for child in ast.iter_child_nodes(node):
            parents[child] = node

    def inside_function(node):
        while node in parents:
            node = parents[node]
            if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
                return True
        return False

    def in_log(node):
        while node is not None:
            if is_log(node) or isinstance(node, ast.Raise) or isinstance(node, ast.AnnAssign) and node.value is None:
                return True
            if isinstance(node, (ast.arguments,)):
                return True
            node = parents.get(node)
        return False

    out = []

    def add(node, new, desc):
        try:
            mutated = src.replace(node, new)
            ast.parse(mutated)
        except SyntaxError:
            return
        out.append((node.lineno, desc, mutated))

    for node in ast.walk(tree):
        if not inside_function(node):
            if isinstance(node, ast.Constant) and isinstance(node.value, int) and not in_log(node):
                add(node, repr(node.value + 1), f"const {node.value}+1")
            continue
        if in_log(node) and not isinstance(node, ast.Raise):
            continue
        if isinstance(node, ast.Compare) and len(node.ops) == 1:
            new = copy.deepcopy(node)
            new.ops = [CMP[type(node.ops[0])]()]
            add(node, "(" + ast.unparse(new) + ")", "cmp " + ast.unparse(node)[:60])
            if isinstance(node.ops[0], (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
                new.ops = [{ast.Lt: ast.GtE, ast.LtE: ast.Gt, ast.Gt: ast.LtE, ast.GtE: ast.Lt}[type(node.ops[0])]()]
                add(node, "(" + ast.unparse(new) + ")", "neg " + ast.unparse(node)[:60])
        elif isinstance(node, ast.BoolOp):
            new = copy.deepcopy(node)
            new.op = ast.Or() if isinstance(node.op, ast.And) else ast.And()
            add(node, "(" + ast.unparse(new) + ")", "boolop " + ast.unparse(node)[:60])
            for i in range(len(node.values)):
                rest = node.values[:i] + node.values[i + 1:]
                new = rest[0] if len(rest) == 1 else ast.BoolOp(op=node.op, values=rest)
                add(node, "(" + ast.unparse(new) + ")", f"drop operand {ast.unparse(node.values[i])[:60]}")
        elif isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            add(node, "(" + ast.unparse(node.operand) + ")", "drop not")
        elif isinstance(node, ast.BinOp) and type(node.op) in BIN:
            new = copy.deepcopy(node)
            new.op = BIN[type(node.op)]()
            add(node, "(" + ast.unparse(new) + ")", "binop " + ast.unparse(node)[:60])
            add(node, "(" + ast.unparse(node.left) + ")", "left of " + ast.unparse(node)[:60])
            add(node, "(" + ast.unparse(node.right) + ")", "right of " + ast.unparse(node)[:60])
        elif isinstance(node, ast.Constant):
            if isinstance(node.value, bool):
                add(node, repr(not node.value), f"const {node.value}")
            elif isinstance(node.value, int):
                add(node, repr(node.value + 1), f"const {node.value}+1")
                add(node, repr(node.value - 1), f"const {node.value}-1")
        elif isinstance(node, ast.If):
            add(node.test, "(not (" + ast.unparse(node.test) + "))", "if not " + ast.unparse(node.test)[:60])
            add(node.test, "True", "if True " + ast.unparse(node.test)[:60])
            add(node.test, "False", "if False " + ast.unparse(node.test)[:60])
        elif isinstance(node, ast.IfExp):
            add(node, "(" + ast.unparse(node.body) + ")", "ifexp body")
            add(node, "(" + ast.unparse(node.orelse) + ")", "ifexp orelse")
        elif isinstance(node, (ast.For, ast.AsyncFor)):
            add(node.iter, f"list({ast.unparse(node.iter)})[:1]", "for first only " + ast.unparse(node.iter)[:50])
            add(node.iter, f"list({ast.unparse(node.iter)})[1:]", "for all but first " + ast.unparse(node.iter)[:50])
        elif isinstance(node, ast.comprehension):
            it = node.iter
            add(it, f"list({ast.unparse(it)})[:1]", "comp first only " + ast.unparse(it)[:50])
            for cond in node.ifs:
                add(cond, "True", "comp if True " + ast.unparse(cond)[:60])
        elif isinstance(node, ast.ExceptHandler):
            indent = " " * node.body[0].col_offset
            first = node.body[0]
            if not (isinstance(first, ast.Raise)):
                add(first, "raise\n" + indent + src.bytes[
                    src.offsets[first.lineno - 1] + first.col_offset:
                    src.offsets[first.end_lineno - 1] + first.end_col_offset].decode(),
                    "handler re-raises " + ast.unparse(node.type)[:40])
        elif isinstance(node, ast.Raise):
            add(node, "pass", "no " + ast.unparse(node)[:60])
        elif isinstance(node, ast.Break):
            add(node, "pass", "no break")
        elif isinstance(node, ast.Continue):
            add(node, "pass", "no continue")
        elif isinstance(node, ast.Expr) and not is_doc(node):
            add(node, "pass", "no " + ast.unparse(node)[:70])
        elif isinstance(node, (ast.Assign, ast.AugAssign)):
            add(node, "pass", "no " + ast.unparse(node)[:70])
        elif isinstance(node, ast.Return) and node.value is not None:
            pass
        elif isinstance(node, ast.Call):
            # drop one keyword argument / deepcopy
            name = ast.unparse(node.func)
            if name in ("copy.deepcopy", "deepcopy", "set", "frozenset", "sorted", "list", "dict") and len(node.args) >= 1:
                add(node, "(" + ast.unparse(node.args[0]) + ")", f"drop {name}")
            if name.endswith(".maybe") and node.args:
                pass
        elif isinstance(node, ast.Subscript) and isinstance(node.slice, ast.Slice):
            add(node, "(" + ast.unparse(node.value) + ")", "drop slice " + ast.unparse(node)[:60])
    # swaps of neighbouring simple statements
    for node in ast.walk(tree):
        for field in ("body", "orelse", "finalbody"):
            block = getattr(node, field, None)
            if not isinstance(block, list):
                continue
            for a, b in zip(block, block[1:]):
                if isinstance(a, (ast.Expr,)) and isinstance(b, (ast.Expr,)) and not (
                    is_doc(a) or is_doc(b) or is_log(a) or is_log(b)
                ):
                    ba = src.bytes[src.offsets[a.lineno - 1] + a.col_offset:src.offsets[a.end_lineno - 1] + a.end_col_offset]
                    bb = src.bytes[src.offsets[b.lineno - 1] + b.col_offset:src.offsets[b.end_lineno - 1] + b.end_col_offset]
                    s1 = src.offsets[a.lineno - 1] + a.col_offset
                    e1 = src.offsets[a.end_lineno - 1] + a.end_col_offset
                    s2 = src.offsets[b.lineno - 1] + b.col_offset
                    e2 = src.offsets[b.end_lineno - 1] + b.end_col_offset
                    new = (src.bytes[:s1] + bb + src.bytes[e1:s2] + ba + src.bytes[e2:]).decode()
                    try:
                        ast.parse(new)
                    except SyntaxError:
                        continue
                    out.append((a.lineno, f"swap {ba.decode()[:40]!r} with {bb.decode()[:40]!r}", new))
    seen, result = set(), []
    for line, desc, new in out:
        if new != text and new not in seen:
            seen.add(new)
            result.append((line, desc, new))
    return sorted(result, key=lambda m: (m[0], m[1]))


def mutants(repo):
    for name in FILES:
        path = os.path.join("omemo", name)
        for i, (line, desc, new) in enumerate(mutants_of(os.path.join(repo, path))):
            yield f"{name.split('.')[0][:2]}{i}", path, line, desc, new


if __name__ == "__main__":
    import collections
    import sys
    c = collections.Counter()
    for m in mutants(sys.argv[1]):
        c[m[1]] += 1
    print(c, sum(c.values()))
