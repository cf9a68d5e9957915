"""Regenerate mc/refmodel/rfluids: the reference model of the formula modules.

A docstring- and comment-free transcription of the *reviewed* formula modules under
the package name rfluids.  It is written once by the author (never by a check) and
committed; the conformance spaces (mc/conform.py) replay every case of their lattice on
this model and on the code in /repo."""
import ast
import os
import shutil

REPO = "/repo/fluids"
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "mc", "refmodel", "rfluids")
MODS = """constants/__init__ constants/constants numerics/__init__ numerics/arrays numerics/doubledouble numerics/polynomial_evaluation
numerics/polynomial_roots numerics/polynomial_utils numerics/special atmosphere compressible control_valve core drag filters
fittings flow_meter friction geometry jet_pump mixing open_flow packed_bed packed_tower particle_size_distribution piping pump
safety_valve saltation separator two_phase two_phase_voidage optional/__init__ optional/spa optional/irradiance
nrlmsise00/__init__ nrlmsise00/nrlmsise_00 nrlmsise00/nrlmsise_00_data nrlmsise00/nrlmsise_00_header""".split()


class T(ast.NodeTransformer):
    def ren(self, n):
        if n == "fluids":
            return "rfluids"
        if n and n.startswith("fluids."):
            return "rfluids" + n[6:]
        return n

    def visit_ImportFrom(self, node):
        node.module = self.ren(node.module)
        return node

    def visit_Import(self, node):
        for a in node.names:
            a.name = self.ren(a.name)
        return node

    def visit_Name(self, node):
        if node.id == "fluids":
            node.id = "rfluids"
        return node

    def strip(self, node):
        self.generic_visit(node)
        if node.body and isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant) and isinstance(node.body[0].value.value, str):
            node.body = node.body[1:] or [ast.Pass()]
        return node
    visit_FunctionDef = visit_ClassDef = visit_Module = visit_AsyncFunctionDef = strip


def main():
    shutil.rmtree(OUT, ignore_errors=True)
    for m in MODS:
        src = open(os.path.join(REPO, m + ".py")).read()
        tree = T().visit(ast.parse(src))
        # future imports must stay first
        fut = [n for n in tree.body if isinstance(n, ast.ImportFrom) and n.module == "__future__"]
        tree.body = fut + [n for n in tree.body if n not in fut]
        p = os.path.join(OUT, m + ".py")
        os.makedirs(os.path.dirname(p), exist_ok=True)
        open(p, "w").write(ast.unparse(ast.fix_missing_locations(tree)) + "\n")
    open(os.path.join(OUT, "__init__.py"), "w").write("")
    open(os.path.join(os.path.dirname(OUT), "__init__.py"), "w").write("")


main()
