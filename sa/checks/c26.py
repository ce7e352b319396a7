"""C26: a written deck refers to the files it consists of"""
import ast
from ..check import Finding, Result
from ..deck import Deck

RULE = ('for every class that reads a set of files through the names found in one of them: the entry of the main file (or of the module above) through which '
        'a module is found when the deck is read, is the one that the deck sets, before it writes that file, to the name of the file the module is written to')


def is_deck(proj, c):
    """reads several files into the entries of one of its dictionaries, and writes them"""
    if proj.method(c, 'write') is None or proj.method(c, 'read') is None:
        return False
    n = 0
    for b in proj.mro(c):
        for m in b.methods.values():
            for s in ast.walk(m.node):
                if isinstance(s, ast.Assign) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and isinstance(s.value.func.value, ast.Name) and \
                        s.value.func.value.id == 'self' and isinstance(s.targets[0], ast.Subscript) and isinstance(s.targets[0].value, ast.Attribute) and 'read' in s.value.func.attr.lower():
                    n += 1
    return n > 3


def check(proj, tier):
    fs, counts, samples = [], dict(decks=0, modules_read=0, modules_written=0, references=0, decided=0), []
    for c in proj.classes.values():
        if not is_deck(proj, c):
            continue
        counts['decks'] += 1
        d = Deck(proj, c)
        for m in d.meths.values():
            if 'write' not in m.name.lower():
                continue
            out, n = d.check(m)
            for k, v in n.items():
                counts[k] += v
            samples += ['%s found through %s' % (k, ', '.join('%s[%s]' % x for x in sorted(v))) for k, v in sorted(d.found_through()[0].items())]
            for rule, con, line, msg in out:
                fs.append(Finding(rule, m.mod.rel, m.qual, con, line, msg))
    return Result(fs, RULE, counts, samples=samples[:20],
                  assumptions=['a name bound to self.<table>[M], or to a copy of it, is that module', 'the deck is written to one folder (the names are entered without their folder)'],
                  minimum=dict(decks=0))
