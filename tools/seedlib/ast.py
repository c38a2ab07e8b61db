#!/usr/bin/env python3
"""Hand-made Solidity / Vyper compiler ASTs for the demonstrations (no compiler is installed)."""
import json
import sys

_id = [0]


def n(t, **k):
    _id[0] += 1
    d = {"nodeType": t, "id": _id[0], "src": "0:0:0"}
    d.update(k)
    return d


def td(s):
    return {"typeIdentifier": "t_" + s, "typeString": s}


def ident(name, ty="uint256"):
    return n("Identifier", name=name, overloadedDeclarations=[], typeDescriptions=td(ty))


def num(v):
    return n("Literal", kind="number", value=str(v), hexValue="", isConstant=False, isLValue=False, isPure=True, lValueRequested=False,
             typeDescriptions=td("int_const %s" % v))


def binop(l, op, r, ty="uint256"):
    return n("BinaryOperation", leftExpression=l, operator=op, rightExpression=r, commonType=td("uint256"), typeDescriptions=td(ty),
             isConstant=False, isLValue=False, isPure=False, lValueRequested=False)


def assign(l, r, op="="):
    return n("ExpressionStatement", expression=n("Assignment", leftHandSide=l, operator=op, rightHandSide=r, typeDescriptions=td("uint256")))


def call(name, args, ty="uint256", kind="functionCall"):
    return n("FunctionCall", expression=ident(name, "function"), arguments=args, names=[], kind=kind, tryCall=False, typeDescriptions=td(ty),
             isConstant=False, isLValue=False, isPure=False, lValueRequested=False)


def st(e):
    return n("ExpressionStatement", expression=e)


def block(*s):
    return n("Block", statements=list(s))


def if_(c, t, e=None):
    d = n("IfStatement", condition=c, trueBody=t)
    if e:
        d["falseBody"] = e
    return d


def uint():
    return n("ElementaryTypeName", name="uint256", typeDescriptions=td("uint256"))


def var(name, state=False):
    return n("VariableDeclaration", name=name, typeName=uint(), constant=False, mutability="mutable", stateVariable=state,
             storageLocation="default", visibility="internal", typeDescriptions=td("uint256"))


def vardecl(name, e):
    v = var(name)
    return n("VariableDeclarationStatement", declarations=[v], assignments=[v["id"]], initialValue=e)


def ret(e):
    return n("Return", expression=e)


def func(name, params, body, rets=1):
    return n("FunctionDefinition", name=name, kind="function", implemented=True, modifiers=[], virtual=False, visibility="public",
             stateMutability="nonpayable", parameters=n("ParameterList", parameters=[var(p) for p in params]),
             returnParameters=n("ParameterList", parameters=[var("") for _ in range(rets)]), body=body)


def contract(name, *nodes):
    return n("ContractDefinition", name=name, abstract=False, baseContracts=[], contractDependencies=[], contractKind="contract",
             fullyImplemented=True, linearizedBaseContracts=[], usedErrors=[], nodes=list(nodes))


def unit(*nodes):
    return n("SourceUnit", absolutePath="c.sol", license="MIT", exportedSymbols={},
             nodes=[n("PragmaDirective", literals=["solidity", "^", "0.8", ".0"])] + list(nodes))


def fbody():
    return block(vardecl("c", binop(ident("a"), "+", ident("b"))),
                 st(call("require", [binop(ident("c"), ">", ident("a"), "bool")], "tuple()")),
                 if_(binop(ident("c"), ">", num(10), "bool"), block(assign(ident("c"), binop(ident("c"), "-", num(1)))),
                     block(assign(ident("c"), binop(ident("c"), "*", num(2))))),
                 assign(ident("x"), call("g", [ident("a"), ident("c")])),
                 ret(ident("c")))


def sol():
    return unit(contract("C", var("x", True), func("f", ["a", "b"], fbody()),
                         func("g", ["a", "b"], block(assign(ident("x"), binop(ident("a"), "/", ident("b"))), ret(binop(ident("a"), "-", ident("b")))))))


# ---- Vyper
def v(t, **k):
    _id[0] += 1
    d = {"ast_type": t, "node_id": _id[0], "src": "0:0:0", "lineno": 1, "col_offset": 0, "end_lineno": 1, "end_col_offset": 0}
    d.update(k)
    return d


def vname(s):
    return v("Name", id=s)


def vint(i):
    return v("Int", value=i)


def vbin(l, op, r):
    return v("BinOp", left=l, op=v(op), right=r)


def varg(s):
    return v("arg", arg=s, annotation=vname("uint256"))


def vfunc(name, params, body, returns="uint256"):
    return v("FunctionDef", name=name, args=v("arguments", args=[varg(x) for x in params], defaults=[]), body=body,
             returns=vname(returns) if returns else None, decorator_list=[vname("external")], doc_string=None, pos=None)


def vy():
    return {"contract_name": "c.vy", "ast": v("Module", name="c.vy", doc_string=None, body=[
        vfunc("f", ["a", "b"], [
            v("AnnAssign", target=vname("c"), annotation=vname("uint256"), value=vbin(vname("a"), "Add", vname("b")), simple=1),
            v("Assert", test=v("Compare", left=vname("c"), op=v("Gt"), right=vname("a")), msg=None),
            v("If", test=v("Compare", left=vname("c"), op=v("Gt"), right=vint(10)),
              body=[v("Assign", target=vname("c"), value=vbin(vname("c"), "Sub", vint(1)))],
              orelse=[v("Assign", target=vname("c"), value=vbin(vname("c"), "Mult", vint(2)))]),
            v("Return", value=vname("c"))]),
        vfunc("g", ["a", "b"], [v("Return", value=vbin(vname("a"), "Sub", vname("b")))])])}


if __name__ == "__main__":
    json.dump(sol() if sys.argv[1] == "sol" else vy(), sys.stdout)
