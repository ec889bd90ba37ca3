""" Comparison of what ebmlite reports with the reference model. """
import io
import sys

from ebmlite import core
from mc import model as M
from mc.base import Viol

BASES = {k: getattr(core, v) for k, v in M.BASE.items()}
_vs = None


def vs():
    """ The test schema, loaded by ebmlite. """
    global _vs
    if _vs is None:
        _vs = core.parseSchema(M.VS_XML, 'vs')
    return _vs


def check_el(el, nd, data, deep=True, raw=True, schema=None, values=True, base=0):
    """ Everything an element reports against its node; Viol on difference.
        `data` holds the bytes from absolute position `base`. """
    if el.offset != nd.off or el.payloadOffset != nd.poff or el.id != nd.id or el.name != nd.name:
        raise Viol('expected %s id 0x%X at %d payload at %d; reported %s id %r at %r payload at %r' % (
            nd.name, nd.id, nd.off, nd.poff, el.name, el.id, el.offset, el.payloadOffset))
    if not isinstance(el, BASES[nd.kind]) or el.dtype is not M.DTYPE[nd.kind]:
        raise Viol('%r at %d has type %r, dtype %r; expected kind %s' % (nd.name, nd.off, type(el), el.dtype, nd.kind))
    if el.size != nd.size:
        raise Viol('%s at %d: size %r, expected %d' % (nd.name, nd.off, el.size, nd.size))
    if schema is not None and el.schema is not schema:
        raise Viol('%s at %d has another schema' % (nd.name, nd.off))
    if nd.children is not None:
        if deep:
            check_all(el, nd.children, data, deep, raw, schema, values, base, 'in %s at %d' % (nd.name, nd.off))
        if values:
            n = len(el)
            if n != len(nd.children):
                raise Viol('%s at %d: len %d, expected %d' % (nd.name, nd.off, n, len(nd.children)))
    elif values:
        try:
            want = nd.value
        except M.Undecodable:
            want = None
        if want is not None:
            v = el.value
            if not M.same(v, want):
                raise Viol('%s at %d: value %r, expected %r' % (nd.name, nd.off, v, want))
    if raw:
        r = el.getRaw()
        if r != data[nd.off - base:nd.end - base]:
            raise Viol('%s at %d: raw bytes %r, expected %r' % (nd.name, nd.off, r[:80], data[nd.off - base:nd.end - base][:80]))
        r = el.getRawValue()
        if r != data[nd.poff - base:nd.end - base]:
            raise Viol('%s at %d: raw value %r, expected %r' % (nd.name, nd.off, r[:80], data[nd.poff - base:nd.end - base][:80]))


def check_all(els, nodes, data, deep=True, raw=True, schema=None, values=True, base=0, where='at the root'):
    """ An iterable of elements against a list of nodes. """
    i = 0
    for el in els:
        if i >= len(nodes):
            raise Viol('an extra element %r %s' % (el, where))
        check_el(el, nodes[i], data, deep, raw, schema, values, base)
        i += 1
    if i != len(nodes):
        raise Viol('only %d of %d elements %s: %r missing' % (i, len(nodes), where, nodes[i]))


def tree(el, raw=False):
    """ A comparable, fully read snapshot of an element. """
    if isinstance(el, core.MasterElement):
        v = tuple(tree(c, raw) for c in el)
    else:
        v = el.value
        if isinstance(v, float):
            v = repr(v)
        elif isinstance(v, bytearray):
            v = bytes(v)
    return (el.name, el.id, el.offset, el.size, v)


def content(el):
    """ Like tree(), without positions. """
    if isinstance(el, core.MasterElement):
        return (el.name, el.id, tuple(content(c) for c in el))
    v = el.value
    if isinstance(v, float):
        v = repr(v)
    elif isinstance(v, bytearray):
        v = bytes(v)
    if isinstance(el, core.VoidElement):
        v = el.size
    return (el.name, el.id, v)


def node_content(nd):
    if nd.children is not None:
        return (nd.name, nd.id, tuple(node_content(c) for c in nd.children))
    v = nd.value
    if isinstance(v, float):
        v = repr(v)
    elif isinstance(v, bytearray):
        v = bytes(v)
    if nd.kind == 'void':
        v = nd.size
    return (nd.name, nd.id, v)


def load(data, headers=True, schema=None):
    return (schema or vs()).load(io.BytesIO(data), headers=headers)
