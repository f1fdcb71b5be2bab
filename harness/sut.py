"""Thin access to the public API of the code under test."""
from zope.tal.htmltalparser import HTMLTALParser
from zope.tal.talgenerator import TALGenerator
from zope.tal.talinterpreter import TALInterpreter
from zope.tal.talparser import TALParser

from harness.engine import Compiler


class Stream:
    """Output stream that keeps the pieces and insists on text."""

    def __init__(self):
        self.parts = []

    def write(self, s):
        if not isinstance(s, str):
            raise TypeError('write(%r)' % (s,))
        self.parts.append(s)

    def getvalue(self):
        return ''.join(self.parts)


def compile_source(source, xml=False, compiler=None, file=None):
    if compiler is None:
        compiler = Compiler()
    gen = TALGenerator(compiler, xml=1 if xml else 0, source_file=file)
    parser = TALParser(gen) if xml else HTMLTALParser(gen)
    parser.parseString(source)
    return parser.getCode()


def compile_doc(doc, compiler=None):
    return compile_source(doc.source, doc.xml, compiler, doc.file)


def render(program, macros, engine, stream=None, **kw):
    if stream is None:
        stream = Stream()
    kw.setdefault('wrap', 0)
    make = kw.pop('interpreter', TALInterpreter)
    make(program, macros, engine, stream, **kw)()
    return stream.getvalue()
