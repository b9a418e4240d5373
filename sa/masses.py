"""Members generated by the class decorator with_property_mass_matrices."""

import ast

from .project import ClassInfo, dotted_of

PREFIX = ("Mcc", "Mn", "Mf", "Me")


def decorated_props(project):
    """[(ClassInfo, property name)] for every use of the decorator"""
    out = []
    for c in project.classes.values():
        for d in c.node.decorator_list:
            if isinstance(d, ast.Call) and (dotted_of(d.func) or "").split(".")[-1] == (
                "with_property_mass_matrices"
            ):
                if d.args and isinstance(d.args[0], ast.Constant):
                    out.append((c, d.args[0].value))
    return out


def mass_members(project):
    names = set()
    for _, p in decorated_props(project):
        arg = p[0].upper() + p[1:].lower()
        for pre in PREFIX:
            for suf in ("", "I"):
                names.add(f"{pre}{arg}{suf}")
                names.add(f"{pre}{arg}{suf}Deriv")
    return names


def mass_property(name):
    """MeSigmaI -> (prefix, 'sigma', inverse?)"""
    for pre in PREFIX:
        if name.startswith(pre):
            rest = name[len(pre):]
            if rest.endswith("Deriv"):
                rest = rest[:-5]
            inv = False
            if rest.endswith("I") and len(rest) > 1:
                inv = True
                rest = rest[:-1]
            return pre, rest.lower(), inv
    return None
