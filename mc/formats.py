"""
The published formats of the schemata that come with ebmlite: mc/formats.txt lists, for each, the
defaults of its header elements and every element's ID, name, type (+ if it may repeat in a container; with its fixed length) and
places ('/' the root, '*' everywhere, else the names of its containers). Element IDs are constants
of a format: files that use them exist. A schema may define more than is listed.
"""
import os
from mc import model as M

PATH = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'formats.txt')


class Format(M.RefSchema):
    """ A listed format, usable by the builder and the parser of mc.model. """

    def __init__(self, name):
        self.name = name
        self.byId, self.byName, self.roots, self.globals = {}, {}, set(), set()
        self.defaults = {}
        self.places = {}

    def default(self, name):
        return self.defaults.get(name)

    def finish(self):
        for i, places in self.places.items():
            for p in places:
                if p == '*':
                    self.globals.add(i)
                elif p == '/':
                    self.roots.add(i)
                else:
                    self.byName[p].children.add(i)
        # the shortest way to each container
        self.chains = {}
        queue = [(r,) for r in sorted(self.roots)] + [(g,) for g in sorted(self.globals)]
        while queue:
            c = queue.pop(0)
            if c[-1] in self.chains or self.byId[c[-1]].kind != 'master':
                continue
            self.chains[c[-1]] = c
            queue += [c + (k,) for k in sorted(self.byId[c[-1]].children)]


def load():
    out, f = {}, None
    with open(PATH) as src:
        for line in src:
            w = line.split()
            if w[0] == 'schema':
                f = out[w[1]] = Format(w[1])
            elif w[0] == 'default':
                f.defaults[w[1]] = w[2]
            else:
                eid, name, kind, places = int(w[0], 16), w[1], w[2], w[3].split(',')
                kind, _, length = kind.partition(':')
                d = M.Def(eid, name, kind.rstrip('+'), {'length': length, 'global': '1' if '*' in places else '0', 'multiple': '1' if '+' in kind else '0'})
                f.byId[eid] = f.byName[name] = d
                f.places[eid] = places
    for f in out.values():
        f.finish()
    return out


FORMATS = load()
