"""Writes DESIGN.md: design_head.md, then one section per property from the
checks' own RULE and BOUNDS with the notes below, then the seeded bugs
(from seeded/*/meta.json and tools/caught.json, written by runseeds.py)."""
import ast, glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# id: (oracle, why tests cannot settle it)
NOTE = {
 'C01': ('Arithmetic on the definition of the format (n leading zeros, marker, big-endian value).', 'One wrong width boundary among 2^56 sizes; the original wrote 128 in one byte as "size 0".'),
 'C02': ('The four class ranges; a naive filter of the whole range for ID generation.', 'IDs are 2^29 possible values; the thorough tier validates every one of them.'),
 'C03': ('`struct` and integer arithmetic; dates by integer microseconds.', 'Failures sit at single powers of two, signs, exponents or dates.'),
 'C04': ('Definition of padding, truncation at a character, first NUL.', 'Cuts inside multi-byte characters need one combination of text and length.'),
 'C05': ('The builder knows position, header and payload of every element it wrote; `obs.check_all` compares every attribute, raw bytes, iteration, indexing, len.', 'Interactions of width, size class, type, nesting and kind of stream.'),
 'C06': ('Reference parser with the run rule, plus rewriting the tree with explicit sizes.', 'Where a run ends depends on sequences of nested containers and on schema attributes.'),
 'C07': ('The content tree itself; bytes are read back by the reference parser and by ebmlite.', 'All combinations of forms (dict, pairs, lists, keys by ID) and all single faults.'),
 'C08': ('The bytes are dissected independently: ID, descriptor of the requested width, payload.', 'Full product of type, value, explicit length, width, infinite.'),
 'C09': ('Results on fresh documents, and a model of which values are cached, consulted at every step.', 'A property of histories; tests run each operation once.'),
 'C10': ('Builder: the elements complete before the cut.', 'Every cut position of every document.'),
 'C11': ('Reference walk over the headers the bytes spell out; CPU limit for termination.', 'All byte strings up to a length, all single-byte corruptions.'),
 'C12': ('Result of the operation without fault; the exception object injected must come out; output must be a prefix.', 'A fault at every single stream operation, and the state left behind.'),
 'C13': ('Reference parser on both byte strings.', 'Values of every type at every position x options x encodings x serialisations.'),
 'C14': ('A direct reading of the XML tree, compared with the reference parse of the output.', 'Widths, sizes and attributes interact; failures only at width limits.'),
 'C15': ('Identity, and the layout line by line.', 'Off-by-one at particular lengths and column counts.'),
 'C16': ('The same operation alone in a fresh process.', 'Process-wide state shows only in sequences of unrelated operations.'),
 'C17': ('Independent reader of the schema XML.', 'Order and repetition of definitions.'),
 'C18': ('Model of files, names, instances.', 'A property of histories (loads, reloads, failures, changed files and directories).'),
 'C19': ('Model of the search; contents tell which file was loaded.', 'Products of kinds of location.'),
 'C20': ('Builder.', 'Header variants x ways of loading x streams x ways of closing.'),
 'C21': ('One model file per thread (`mc/fmodel.py`).', 'Needs particular interleavings of two adjacent lines.'),
 'C22': ('The same model over whole lives of threads whose identifiers are reused.', 'Histories, and identifier reuse, which tests cannot arrange.'),
 'C23': ('Builder.', 'Interleavings.'),
 'C24': ('Builder; independent rendering of every traversal.', 'All trees x options x starting points.'),
 'C25': ('Builder plus position of the one defect.', 'A defect at every place of every tree.'),
 'C26': ('The library conversion (checked by C13, C14, C24) and the state of every file before.', 'Product of options and file states; in processes of their own.'),
 'C27': ('Equality of a documented key.', 'All ordered pairs x caching states; transitivity follows from equality of a key.'),
 'C28': ('The definition asked for.', 'Interleavings.'),
 'C29': ('Builder: bytes that belong to headers, pre-read values or the value asked for; every stream operation is recorded.', 'Which bytes are touched is invisible to tests of results.'),
 'C30': ('Builder for what the handler must be given; built-in codec of the same encoding, and the schema XML that defines the added element, as twins.', 'Extension points that no test touches; the product of handler kind, depth, reader and option is what breaks.'),
 'C31': ('Live Element counts and allocated bytes at every stream access, the same operation over 5 and over 15 repetitions.', 'Whatever is kept alive is invisible in results and only hurts on long files.'),
 'C32': ('The results each operation gives alone, cold.', 'State shared by accident (module scratch buffers, class attributes) shows only in specific interleavings.'),
 'C34': ('A table of the published formats (`mc/formats.txt`), encoded by hand-written code.', 'Every element x every place x values x forms, and every pair of neighbours; the tests touch a few elements.'),
 'C35': ('The cost of the same operation on a quarter of the input, counted by a tracer and by the stream.', 'All units x places x operations: a quadratic search hides in one operation at one place; tests measure nothing.'),
 'C33': ('Direct model of the naming rules.', 'Products of sources, names and defaults.'),
}
props = {}
for l in open(V + '/properties.jsonl'):
    d = json.loads(l)
    props[d['id']] = d
cost = json.load(open(V + '/tools/costs.json'))
out = [open(V + '/tools/design_head.md').read(), '## 3. The properties\n']
for pid in sorted(props):
    c = {}
    for n in ast.parse(open('%s/checks/%s.py' % (V, pid.lower())).read()).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') in ('RULE', 'BOUNDS', 'TECHNIQUE', 'LEVEL', 'NOTE'):
            try:
                c[n.targets[0].id] = eval(compile(ast.Expression(n.value), '', 'eval'))
            except NameError:
                pass
    o, w = NOTE[pid]
    out.append('### %s %s\n' % (pid, props[pid]['title']))
    out.append('*Explored.* %s\n' % c['RULE'])
    out.append('*Oracle.* %s\n' % o)
    b = c.get('BOUNDS')
    if b:
        out.append('*Bounds.* quick: %s. thorough: %s.\n' % (b['quick'], b['thorough']))
    out.append('*Beyond tests.* %s *Cost.* quick %s s, thorough %s (8 cores).\n' % (w, cost[pid][0], cost[pid][1]))
try:
    caught = json.load(open(V + '/tools/caught.json'))
except OSError:
    caught = {}
metas = {os.path.basename(os.path.dirname(f)): json.load(open(f)) for f in glob.glob(V + '/seeded/*/meta.json')}
out.append('''## 4. Planted bugs

%d planted changes are kept in `seeded/` (written from the property texts in
several rounds by `tools/mkseeds.py`, each confirmed to compile, to pass the
stable tests, and to fail its demonstration). Column *caught by*: the quick
checks that report it (only the property's own check was run where marked +).

| bug | breaks | needs | caught by |
|---|---|---|---|''' % len(metas))
for i in sorted(metas):
    m = metas[i]
    k = caught.get(i)
    out.append('| %s | %s | %s | %s |' % (i, m['property'], m['needs'].replace('|', '/'), 'not run' if k is None else ', '.join(k) or 'MISSED'))
out.append(open(V + '/tools/design_tail.md').read())
open(V + '/DESIGN.md', 'w').write('\n'.join(out))
