"""Templates whose statements, tags and elements are moved about at random,
without regard to what is usual."""
import copy
import re

from harness import pair
from harness import tree
from harness.tree import Doc
from harness.tree import Elem
from harness.tree import walk

from zope.tal.htmltalparser import HTMLParseError
from zope.tal.taldefs import TALError


USE = re.compile(r'\bM\d+')


def change(r, obs, elems):
    a, b = r.sample(elems, 2)
    x = r.random()
    if x < .5 and a.stm:
        key = r.choice(sorted(a.stm))
        b.stm[key] = a.stm[key]
        if r.random() < .5:
            del a.stm[key]
            obs.count('moved')
        else:
            obs.count('copied')
    elif x < .6 and a.stm:
        del a.stm[r.choice(sorted(a.stm))]
        obs.count('dropped')
    elif x < .8:
        a.stm, b.stm = b.stm, a.stm
        obs.count('exchanged')
    elif x < .9:
        if not (a.decls or b.decls):
            a.tag, b.tag = b.tag, a.tag
            a.ns, b.ns = b.ns, a.ns
            obs.count('tags')
    elif a.children and not b.selfclose:
        n = r.choice(a.children)
        if isinstance(n, Elem) and b in n.walk():
            return
        a.children.remove(n)
        b.children.insert(r.randint(0, len(b.children)), n)
        obs.count('elements')


def tidy(doc):
    """Void elements have no contents, and no place for results."""
    for e in walk(doc.nodes):
        if not doc.xml and e.tag in tree.VOID and not e.ns:
            e.children = []
            for key in ('i18n:translate', 'tal:script', 'tal:on-error'):
                e.stm.pop(key, None)
            if 'tal:replace' in e.stm:
                e.stm.pop('tal:omit-tag', None)


def disorder(r, obs, docs, much):
    """The same documents after so many changes, or None if too small."""
    elems = [e for d in docs for e in walk(d.nodes)]
    if len(elems) < 2:
        return None
    for _ in range(much):
        change(r, obs, elems)
    for d in docs:
        tidy(d)
    return [Doc(d.nodes, d.xml, d.file) for d in docs]


def recursive(docs):
    """Does a macro use itself?  How deep that gets depends on the stack."""
    uses = {}
    for d in docs:
        for e in walk(d.nodes):
            name = e.stm.get('metal:define-macro')
            if name:
                uses.setdefault(name, set()).update(
                    m for x in e.walk()
                    for key in ('metal:use-macro', 'metal:extend-macro')
                    for m in USE.findall(x.stm.get(key, '')))
    known = set(uses)
    while True:
        ends = {m for m in known if not uses[m] & known}
        if not ends:
            return bool(known)
        known -= ends


class _Quiet:
    def count(self, *args):
        pass


def perhaps(r, obs, case, chance=.15):
    """Now and then the same case in disorder, if it is still accepted."""
    if r.random() >= chance:
        return case
    docs = disorder(r, _Quiet(), copy.deepcopy(case.docs()),
                    r.choice((1, 2, 4, 8)))
    if docs is None:
        return case
    if recursive(docs):
        return case
    new = pair.Case(docs[-1], docs[:-1], case.values, case.fragments,
                    case.seed)
    try:
        new.compile()
    except (TALError, HTMLParseError):
        return case
    new.disordered = True
    obs.count('in disorder')
    return new
