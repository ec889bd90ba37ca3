"""Behaviour-preserving rewrites of /repo/ebmlite, on which every check must stay quiet.
Usage: refactors.py [name ...] [Cxx ...]   runs all (or the named) checks on a copy with each rewrite."""
import os, re, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C, D, N, U, T, X = ('ebmlite/%s.py' % m for m in ('core', 'decoding', 'encoding', 'util', 'threaded_file', 'xml_codecs'))
R = {}

R['core-reading'] = [(C, '''        offset = stream.tell()
        eid, idlen = readElementID(stream)
        esize, sizelen = readElementSize(stream)
        payloadOffset = offset + idlen + sizelen

        try:
            etype = self.schema.elements[eid]
            el = etype(stream, offset, esize, payloadOffset)
        except KeyError:
            el = self.schema.UNKNOWN(stream, offset, esize, payloadOffset,
                                     eid=eid, schema=self.schema)
''', '''        eid, esize, offset, payloadOffset = self._readHeader(stream)
        etype = self.schema.elements.get(eid)

        if etype is None:
            el = self.schema.UNKNOWN(stream, offset, esize, payloadOffset,
                                     eid=eid, schema=self.schema)
        else:
            el = etype(stream, offset, esize, payloadOffset)
'''), (C, '''    @classmethod
    def _isValidChild(cls, elId: int) -> bool:
        """ Is the given element ID represent''', '''    @staticmethod
    def _readHeader(stream):
        """ Read an element's ID and size. """
        start = stream.tell()
        eid, idlen = readElementID(stream)
        esize, sizelen = readElementSize(stream)
        return eid, esize, start, start + idlen + sizelen

    @classmethod
    def _isValidChild(cls, elId: int) -> bool:
        """ Is the given element ID represent'''), (C, '''        pos = self.payloadOffset
        payloadEnd = pos + self.size

        while pos < payloadEnd:
            self.stream.seek(pos)
            try:
                el, pos = self.parseElement(self.stream, nocache=nocache)
                yield el
            except TypeError as err:
                if "ord()" in str(err):
                    break
                raise
''', '''        start = self.payloadOffset
        end = start + self.size
        yield from self._crawl(start, lambda pos: pos < end, nocache)

    def _crawl(self, pos, more, nocache):
        """ Parse the elements from a position on. """
        while more(pos):
            self.stream.seek(pos)
            try:
                child, pos = self.parseElement(self.stream, nocache=nocache)
            except TypeError as err:
                if "ord()" not in str(err):
                    raise
                return
            yield child
'''), (C, '''        pos = self.payloadOffset
        while True:
            self.stream.seek(pos)
            try:
                el, pos = self.parseElement(self.stream, nocache=nocache)
                yield el
            except TypeError as err:
                # Occurs at end of file (parsing 0 length string), it's okay.
                if "ord()" not in str(err):
                    # (Apparently) not the TypeError raised at EOF!
                    raise
                break
''', '''        yield from self._crawl(self.payloadOffset, lambda pos: True, nocache)
'''), (C, '''                n = 0  # In case there's nothing to enumerate
                for n, _el in enumerate(self.__iter__(nocache=True), 1):
                    pass
                self._length = n
''', '''                self._length = sum(1 for _ in self.__iter__(nocache=True))
'''), (C, '''            n = None
            for n, el in enumerate(self):
                if n == idx:
                    return el
            if n is None:
                # If object being enumerated is empty, `n` is never set.
                raise IndexError("Document contained no readable data")
            raise IndexError("list index out of range (0-{})".format(n))
''', '''            seen = 0
            for el in self:
                if seen == idx:
                    return el
                seen += 1
            if not seen:
                raise IndexError("Document contained no readable data")
            raise IndexError("list index out of range (0-{})".format(seen - 1))
'''), (C, '''        value = self._value
        if value is None:
            self.stream.seek(self.payloadOffset)
            value = self._value = self.parse(self.stream, self.size)
        return value
''', '''        cached = self._value
        if cached is not None:
            return cached
        self.stream.seek(self.payloadOffset)
        fresh = self.parse(self.stream, self.size)
        self._value = fresh
        return fresh
'''), (C, '''        size = self.size  # Note: finding an 'infinite' element's size seeks
        self.stream.seek(self.offset)
        return self.stream.read(size + (self.payloadOffset - self.offset))
''', '''        header = self.payloadOffset - self.offset
        size = self.size
        self.stream.seek(self.offset)
        return self.stream.read(header + size)
''')]

R['core-schema'] = [(C, '''    if not filename.is_file():
        if isinstance(filename, Path) and len(filename.parts) == 1:
            # Not a specific path and file not found: search paths in SCHEMA_PATH
            for p in paths:
                try:
                    f = _expandSchemaPath(p, filename)
                    if f.is_file():
                        filename = f
                        break
                except ModuleNotFoundError:
                    continue

    if hasattr(filename, 'expanduser'):
        filename = filename.expanduser().resolve()

    if str(filename) in SCHEMATA and not reload:
        return SCHEMATA[str(filename)]

    if not filename.is_file():
        raise IOError(errno.ENOENT, 'Could not find schema XML', origName)

    # Note: binary, so the XML's own declaration determines its encoding.
    with filename.open('rb') as fs:
        schema = Schema(fs, **kwargs)

    # Note: a stream from a (e.g., zipped) package doesn't know its full path.
    schema.filename = str(filename)
    SCHEMATA[str(filename)] = SCHEMATA[origName] = schema
    return schema
''', '''    filename = _findSchema(filename, paths)
    key = str(filename)

    if not reload:
        known = SCHEMATA.get(key)
        if known is not None:
            return known

    if not filename.is_file():
        raise IOError(errno.ENOENT, 'Could not find schema XML', origName)

    fs = filename.open('rb')
    try:
        schema = Schema(fs, **kwargs)
    finally:
        fs.close()

    schema.filename = key
    for name in (key, origName):
        SCHEMATA[name] = schema
    return schema


def _findSchema(filename, paths):
    """ Search the paths, unless the file is there. """
    if not filename.is_file() and isinstance(filename, Path) and len(filename.parts) == 1:
        for p in paths:
            try:
                candidate = _expandSchemaPath(p, filename)
            except ModuleNotFoundError:
                continue
            if candidate.is_file():
                filename = candidate
                break
    if hasattr(filename, 'expanduser'):
        filename = filename.expanduser().resolve()
    return filename
'''), (C, '''        if 'Void' in self.elementsByName:
            el = self.elementsByName['Void']
            void = type('VoidElement', (VoidElement,),
                        {'id': el.id, 'name': 'Void', 'schema': self,
                         'mandatory': el.mandatory, 'multiple': el.multiple})
            self.elements[el.id] = void
            self.elementsByName['Void'] = void
''', '''        self._replaceVoid()
'''), (C, '''    def _parseLegacySchema(self, schema):
''', '''    def _replaceVoid(self):
        """ Use the special class for `Void`. """
        old = self.elementsByName.get('Void')
        if old is None:
            return
        atts = dict(id=old.id, name='Void', schema=self)
        atts['multiple'] = old.multiple
        atts['mandatory'] = old.mandatory
        new = type('VoidElement', (VoidElement,), atts)
        self.elementsByName['Void'] = new
        self.elements[old.id] = new

    def _parseLegacySchema(self, schema):
'''), (C, '''        def _getBool(d, k, default):
            """ Helper function to get a dictionary value cast to bool. """
            try:
                return str(d[k]).strip()[0] in 'Tt1'
            except (KeyError, TypeError, IndexError, ValueError):
                # TODO: Don't fail silently for some exceptions.
                pass
            return default
''', '''        def _getBool(d, k, default):
            """ Helper function to get a dictionary value cast to bool. """
            if k not in d:
                return default
            text = str(d[k]).strip()
            return text[0] in ('T', 't', '1') if text else default
'''), (C, '''            newatts = self.elementInfo[eid].copy()
            newatts.update(attribs)
            if self.elementInfo[eid] == newatts:
                eclass = self.elements[eid]
            else:
                raise TypeError''', '''            known = self.elementInfo[eid]
            if all(k in known and known[k] == v for k, v in attribs.items()):
                eclass = self.elements[eid]
            else:
                raise TypeError'''), (C, '''        def _crawl(el):
            if isinstance(el, MasterElement):
                for subel in el:
                    _crawl(subel)
            elif isinstance(el, UnknownElement):
                raise NameError("Verification failed, unknown element ID %x" %
                                el.id)
            else:
                _ = el.value

            return True

        return _crawl(self.loads(data))
''', '''        pending = [iter(self.loads(data))]
        while pending:
            el = next(pending[-1], None)
            if el is None:
                pending.pop()
            elif isinstance(el, MasterElement):
                pending.append(iter(el))
            elif isinstance(el, UnknownElement):
                raise NameError("Verification failed, unknown element ID %x" % el.id)
            else:
                el.value
        return True
'''), (C, '''        try:
            return self.elements[key]
        except KeyError:
            return self.elementsByName[key]
''', '''        if key in self.elements:
            return self.elements[key]
        return self.elementsByName[key]
'''), (C, '''                    with p.open('rb') as fs:
                        xml = ET.parse(fs)
                    if xml.getroot().tag in ('Schema', 'table'):
                        value = p if absolute else relpath / p.name
                        schemata.setdefault(key, []).append(value)
                except (ET.ParseError, IOError, TypeError, LookupError, ValueError):
                    # Note: an unusable XML encoding is a Lookup or ValueError
                    continue
''', '''                    with p.open('rb') as fs:
                        tag = ET.parse(fs).getroot().tag
                except (ET.ParseError, IOError, TypeError, LookupError, ValueError):
                    # Note: an unusable XML encoding is a Lookup or ValueError
                    continue
                if tag == 'Schema' or tag == 'table':
                    if key not in schemata:
                        schemata[key] = []
                    schemata[key] += [p if absolute else relpath / p.name]
''')]

R['core-encoding'] = [(C, '''        for k, v in data:
            if k not in cls.schema:
                raise TypeError("Element type %r not found in schema" % k)
            # TODO: Validation of hierarchy, multiplicity, mandate, etc.
            result.extend(cls.schema[k].encode(v))

        return result
''', '''        return bytearray().join([cls._encodeItem(k, v) for k, v in data])

    @classmethod
    def _encodeItem(cls, name, value):
        """ Encode a child. """
        if name not in cls.schema:
            raise TypeError("Element type %r not found in schema" % name)
        return cls.schema[name].encode(value)
'''), (C, '''            result = bytearray()
            for v in value:
                result.extend(cls.encode(v, length, lengthSize, infinite))
            return result
        return cls._encodeElement(value, length, lengthSize, infinite)
''', '''            return bytearray(b'').join(cls.encode(v, length=length, lengthSize=lengthSize, infinite=infinite) for v in value)
        return cls._encodeElement(value, length, lengthSize, infinite)
'''), (C, '''        encId = encoding.encodeId(cls.id)
        if infinite:
            # 'Unknown' size: the length marker followed by all bits set.
            if lengthSize is None or lengthSize == -1:
                lengthSize = 1
            elif not 1 <= lengthSize <= 8:
                raise ValueError("Cannot encode element size of length %s" % lengthSize)
            encSize = encoding.encodeUInt((2 << (7 * lengthSize)) - 1, lengthSize)
        else:
            encSize = encoding.encodeSize(len(payload), lengthSize)
        return encId + encSize + payload
''', '''        if not infinite:
            encSize = encoding.encodeSize(len(payload), lengthSize)
        else:
            # 'Unknown' size: the length marker followed by all bits set.
            width = 1 if lengthSize in (None, -1) else lengthSize
            if width < 1 or width > 8:
                raise ValueError("Cannot encode element size of length %s" % width)
            encSize = ((2 << (7 * width)) - 1).to_bytes(width, 'big')
        return b''.join((encoding.encodeId(cls.id), encSize, payload))
'''), (N, '''    # Brute force it. Ugly but faster than calculating it.
    if val <= 126:
        return 1
    elif val <= 16382:
        return 2
    elif val <= 2097150:
        return 3
    elif val <= 268435454:
        return 4
    elif val <= 34359738366:
        return 5
    elif val <= 4398046511102:
        return 6
    elif val <= 562949953421310:
        return 7
    else:
        return 8
''', '''    for n in range(1, 8):
        if val <= (1 << 7 * n) - 2:
            return n
    return 8
'''), (N, '''    try:
        packed = _struct_uint64.pack(val).lstrip(pad) or pad
    except struct.error as err:
        # Catch other errors. Value is probably too large for struct.
        raise ValueError(str(err))

    if length is None:
        return packed
    if len(packed) > length:
        raise ValueError("Encoded length (%d) greater than specified length "
                         "(%d)" % (len(packed), length))
    return packed.rjust(length, pad)
''', '''    if val > 0xFFFFFFFFFFFFFFFF:
        raise ValueError("%d does not fit 8 bytes" % val)
    width = max(1, (val.bit_length() + 7) // 8)
    if length is not None:
        if width > length:
            raise ValueError("Encoded length (%d) greater than specified length "
                             "(%d)" % (width, length))
        width = length
    return int(val).to_bytes(width, 'big')
''')]

R['decoding'] = [(D, '''    if byte >= 128:
        return 1, byte & 0b1111111
    elif byte >= 64:
        return 2, byte & 0b111111
    elif byte >= 32:
        return 3, byte & 0b11111
    elif byte >= 16:
        return 4, byte & 0b1111
    elif byte >= 8:
        return 5, byte & 0b111
    elif byte >= 4:
        return 6, byte & 0b11
    elif byte >= 2:
        return 7, byte & 0b1

    return 8, 0
''', '''    for n in range(1, 8):
        mark = 256 >> n
        if byte >= mark:
            return n, byte & (mark - 1)
    return 8, 0
'''), (D, '''    if length > 1:
        size = _struct_uint64_unpack((chr(size).encode('latin-1') +
                                      stream.read(length - 1)
                                      ).rjust(8, b'\\x00'))[0]

    if size == (2**(7*length)) - 1:
        # EBML 'unknown' size, all bytes 0xFF
        size = None

    return size, length
''', '''    if length > 1:
        rest = stream.read(length - 1)
        size = _struct_uint64_unpack((bytes((size,)) + rest).rjust(8, b'\\x00'))[0]

    unknown = (1 << 7 * length) - 1
    return (None if size == unknown else size), length
'''), (D, '''    value = stream.read(size)
    value = value.partition(b'\\x00')[0]
''', '''    value = stream.read(size).split(b'\\x00', 1)[0]
'''), (D, '''    data = stream.read(size)
    data = data.partition(b'\\x00')[0]
    return str(data, 'utf_8')
''', '''    data = stream.read(size)
    end = data.find(b'\\x00')
    if end >= 0:
        data = data[:end]
    return bytes(data).decode('utf8')
'''), (D, '''    data = stream.read(size)
    if data[0] & 0b10000000:
        pad = b'\\xff'
    else:
        pad = b'\\x00'
    return _struct_int64_unpack_from(data.rjust(8, pad))[0]
''', '''    data = stream.read(size)
    negative = data[0] >= 0x80
    return _struct_int64_unpack_from(data.rjust(8, b'\\xff' if negative else b'\\x00'))[0]
'''), (D, '''    delta = timedelta(microseconds=(nanoseconds // 1000))
    return datetime(2001, 1, 1, tzinfo=None) + delta
''', '''    seconds, rest = divmod(nanoseconds, 10 ** 9)
    return datetime(2001, 1, 1) + timedelta(seconds=seconds, microseconds=rest // 1000)
''')]

R['threads'] = [(T, '''        thread = currentThread()
        owner = self._owners.get(thread.ident)
        if owner is not None and owner() is thread:
            return self.threads.get(thread.ident)
        return None
''', '''        me = currentThread()
        key = me.ident
        owner = self._owners.get(key)
        if owner is None or owner() is not me:
            return None
        return self.threads.get(key)
'''), (T, '''        self._ready.wait(self.timeout)

        fp = self._getThreadStream()
        if fp is None:
            # First access from this thread. Open the file.
            fp = io.FileIO(*self.initArgs, **self.initKwargs)
            self._setThreadStream(fp)
        return fp
''', '''        self._ready.wait(self.timeout)
        existing = self._getThreadStream()
        return existing if existing is not None else self._open()


    def _open(self):
        """ Open the file for the current thread. """
        stream = io.FileIO(*self.initArgs, **self.initKwargs)
        self._setThreadStream(stream)
        return stream
'''), (T, '''            with self._lock:
                for i, fp in list(self.threads.items()):
                    if fp.closed:
                        del self.threads[i]
''', '''            with self._lock:
                for i in [i for i, fp in self.threads.items() if fp.closed]:
                    self.threads.pop(i)
'''), (T, '''        fp = self._getThreadStream()
        if fp is not None:
            fp.close()
        self.cleanup()
''', '''        mine = self._getThreadStream()
        if mine is not None:
            mine.close()

        self.cleanup()
''')]

R['codecs'] = [(X, '''        result = base64.encodebytes(data).decode()
''', '''        result = ''.join(base64.b64encode(data[i:i + 57]).decode() + '\\n' for i in range(0, len(data), 57))
''')]

R['util'] = [(U, '''    result = []
    for i in (x for x in range(idrange[0], idrange[1] + 1) if x not in exclude):
        if len(result) == count:
            break
        result.append(i)

    return result
''', '''    result = []
    candidate, last = idrange
    while candidate <= last and len(result) != count:
        if candidate not in exclude:
            result.append(candidate)
        candidate += 1
    return result
'''), (U, '''    if isinstance(el, core.MasterElement):
        for chEl in el:
            toXml(chEl, xmlEl, offsets, sizes, types, ids, binary_codec, void_codec)
    elif isinstance(el, core.VoidElement):
        xmlEl.set('size', str(el.size))
        if void_codec.NAME != 'ignore':
            xmlEl.set('encoding', void_codec.NAME)
        xmlEl.text = void_codec.encode(el.value)
    elif isinstance(el, core.BinaryElement):
        xmlEl.set('encoding', binary_codec.NAME)
        xmlEl.text = binary_codec.encode(el.value, offset=el.offset)
    elif not isinstance(el, core.VoidElement):
        xmlEl.set('value', str(el.value))

    return xmlEl
''', '''    if isinstance(el, core.MasterElement):
        for child in el:
            toXml(child, parent=xmlEl, offsets=offsets, sizes=sizes, types=types, ids=ids,
                  binary_codec=binary_codec, void_codec=void_codec)
        return xmlEl

    if isinstance(el, core.VoidElement):
        if void_codec.NAME != 'ignore':
            xmlEl.set('encoding', void_codec.NAME)
        xmlEl.set('size', str(el.size))
        xmlEl.text = void_codec.encode(el.value)
        return xmlEl

    if not isinstance(el, core.BinaryElement):
        xmlEl.set('value', str(el.value))
        return xmlEl

    xmlEl.text = binary_codec.encode(el.value, offset=el.offset)
    xmlEl.set('encoding', binary_codec.NAME)
    return xmlEl
'''), (U, '''    if sizeLength is None:
        sl = xmlEl.get('sizeLength', None)
        if sl is None:
            s = xmlEl.get('size', None)
            if s is not None:
                sl = encoding.getLength(int(s))
            else:
                sl = 4
        else:
            sl = int(sl)
    else:
        sl = int(xmlEl.get('sizeLength', sizeLength))
''', '''    if 'sizeLength' in xmlEl.attrib:
        sl = int(xmlEl.attrib['sizeLength'])
    elif sizeLength is not None:
        sl = int(sizeLength)
    elif 'size' in xmlEl.attrib:
        sl = encoding.getLength(int(xmlEl.attrib['size']))
    else:
        sl = 4
'''), (U, '''        children = BytesIO()
        for chEl in xmlEl:
            xmlElement2ebml(chEl, children, schema, sl, unknown)
        payload = children.getvalue()
        encSize = encoding.encodeSize(len(payload), max(sl, encoding.getLength(len(payload))))
        encoded = encId + encSize + payload
        ebmlFile.write(encoded)
        return len(encoded)
''', '''        children = BytesIO()
        total = sum(xmlElement2ebml(chEl, children, schema, sl, unknown) for chEl in xmlEl)
        width = max(sl, encoding.getLength(total))
        head = encId + encoding.encodeSize(total, width)
        ebmlFile.write(head)
        ebmlFile.write(children.getvalue())
        return len(head) + total
'''), (U, '''    if xmlRoot.tag == schema.document.__name__:
        for el in xmlRoot:
            numBytes += xmlElement2ebml(el, ebmlFile, schema, sizeLength,
                                        unknown=unknown)
    else:
        numBytes += xmlElement2ebml(xmlRoot, ebmlFile, schema, sizeLength,
                                    unknown=unknown)
''', '''    top = xmlRoot if xmlRoot.tag == schema.document.__name__ else [xmlRoot]
    for node in top:
        numBytes += xmlElement2ebml(node, ebmlFile, schema, sizeLength=sizeLength, unknown=unknown)
'''), (U, '''    if isinstance(el, core.Document):
        out.write("%06s %06s %s %s (Document, type %s)\\n" % (el.offset, el.size, tab, el.name, el.type))
        for i in el:
            pprint(i, values, out, indent, binary_codec, void_codec, _depth+1)
    else:
        out.write("%06s %06s %s %s (ID 0x%0X)" % (el.offset, el.size, tab, el.name, el.id))
''', '''    prefix = "%06s %06s %s %s " % (el.offset, el.size, tab, el.name)
    if isinstance(el, core.Document):
        out.write(prefix + "(Document, type %s)\\n" % (el.type,))
        for i in el:
            pprint(i, values=values, out=out, indent=indent, binary_codec=binary_codec, void_codec=void_codec, _depth=_depth+1)
    else:
        out.write(prefix + "(ID 0x%0X)" % el.id)
''')]


R['second-core'] = [(C, '''        except AttributeError:
            # An "infinite" element (size specified in file is all 0xFF)
            pos = self.payloadOffset
            numChildren = 0
            while True:
                self.stream.seek(pos)
                end = pos
                try:
                    # Check the ID first: anything else about an element that
                    # isn't a child (e.g. its size) is of no concern.
                    eid, _idlen = readElementID(self.stream)
                    if not self._isValidChild(eid):
                        break
                    self.stream.seek(pos)
                    # TODO: Cache parsed elements?
                    _el, pos = self.parseElement(self.stream, nocache=True)
                    numChildren += 1
                except TypeError as err:
                    # Will occur at end of file; message will contain "ord()".
                    if "ord()" in str(err):
                        break
                    # Not the expected EOF TypeError!
                    raise

            self._size = end - self.payloadOffset
            self._length = numChildren
            return self._size
''', '''        except AttributeError:
            pass

        # An "infinite" element (size specified in file is all 0xFF)
        count, size = self._measure()
        self._length = count
        self._size = size
        return size

    def _measure(self):
        """ Get the number of children, and the payload size, by reading. """
        first = self.payloadOffset
        nextPos, count = first, 0
        while True:
            here = nextPos
            self.stream.seek(here)
            try:
                if not self._isValidChild(readElementID(self.stream)[0]):
                    return count, here - first
                self.stream.seek(here)
                nextPos = self.parseElement(self.stream, nocache=True)[1]
            except TypeError as err:
                if "ord()" not in str(err):
                    raise
                return count, here - first
            count += 1
'''), (C, '''        if cls.children and elId in cls.children:
            return True

        return elId in cls.schema.globals
''', '''        kids = cls.children or ()
        return elId in kids or elId in cls.schema.globals
'''), (C, '''        cleared = 0
        value = self._value  # Another thread may clear `_value`
        if value is not None:
            cleared = 1
            if recurse:
                cleared += sum(ch.gc(recurse) for ch in value)
            self._value = None
        return cleared
''', '''        held = self._value
        if held is None:
            return 0
        below = 0
        for child in (held if recurse else ()):
            below += child.gc(recurse)
        self._value = None
        return below + 1
'''), (C, '''        value = self._value
        if value is None:
            value = self._value = list(self)
        return value
''', '''        cached = self._value
        if cached is not None:
            return cached
        children = [child for child in self]
        self._value = children
        return children
'''), (C, '''        return self.value.__getitem__(*args)
''', '''        children = self.value
        return children.__getitem__(*args)
'''), (C, '''        headers = {}
        for elName, elType in (('EBMLVersion', int),
                               ('EBMLReadVersion', int),
                               ('DocType', str),
                               ('DocTypeVersion', int),
                               ('DocTypeReadVersion', int)):
            if elName in cls.schema:
                v = cls.schema._getInfo(cls.schema[elName].id, elType)
                if v is not None:
                    headers[elName] = v

        return dict(EBML=headers)
''', '''        schema = cls.schema
        names = ('EBMLVersion', 'EBMLReadVersion', 'DocType', 'DocTypeVersion', 'DocTypeReadVersion')
        present = [(n, schema._getInfo(schema[n].id, str if n == 'DocType' else int)) for n in names if n in schema]
        return {'EBML': {n: v for n, v in present if v is not None}}
'''), (C, '''        if isinstance(data, list):
            if len(data) > 0 and isinstance(data[0], list):
                # List of lists: special case for Documents.
                # Encode as multiple 'root' elements.
                raise TypeError('Cannot encode multiple Documents')
            else:
                for v in data:
                    # Items may be name/value tuples, or data themselves
                    stream.write(cls.encodePayload([v] if _isPair(v) else v))
        else:
            stream.write(cls.encodePayload(data))
''', '''        if not isinstance(data, list):
            stream.write(cls.encodePayload(data))
            return
        if data and isinstance(data[0], list):
            raise TypeError('Cannot encode multiple Documents')
        for item in data:
            if _isPair(item):
                item = [item]
            stream.write(cls.encodePayload(item))
'''), (C, '''        parent = parent or self
        if parent.children is None:
            parent.children = set()
        parent.children.add(eid)

        return eclass
''', '''        owner = parent if parent else self
        if owner.children is not None:
            owner.children.add(eid)
        else:
            owner.children = {eid}
        return eclass
'''), (C, '''            mandatory = _getBool(attribs, 'mandatory', False)
            multiple = _getBool(attribs, 'multiple', False)
            precache = _getBool(attribs, 'precache', baseClass.precache)
            length = _getInt(attribs, 'length', None)
            isGlobal = _getBool(attribs, 'global', None)
''', '''            isGlobal = _getBool(attribs, 'global', None)
            length = _getInt(attribs, 'length', None)
            flags = {}
            for flag, default in (('mandatory', False), ('multiple', False), ('precache', baseClass.precache)):
                flags[flag] = _getBool(attribs, flag, default)
'''), (C, '''                          {'id': eid, 'name': ename, 'schema': self,
                           'mandatory': mandatory, 'multiple': multiple,
                           'precache': precache, 'length': length,
                           'children': set(), '__doc__': docs,
                           '__slots__': baseClass.__slots__})
''', '''                          dict(flags, id=eid, name=ename, schema=self, length=length,
                               children=set(), __doc__=docs, __slots__=baseClass.__slots__))
'''), (C, '''        return (key in self.elementsByName) or (key in self.elements)
''', '''        return key in self.elements or key in self.elementsByName
'''), (C, '''            return self is other or self.elementInfo == other.elementInfo
        except AttributeError:
            return False
''', '''            theirs = other.elementInfo
        except AttributeError:
            return False
        return self is other or theirs == self.elementInfo
'''), (C, '''        if el.tag == "Schema":
            for chEl in el:
                self._parseSchema(chEl, self)
            return

        if el.tag not in self.BASE_CLASSES:
            if el.tag.endswith('Element'):
                raise ValueError('Unknown element type: %s' % el.tag)

            # FUTURE: Add schema-describing metadata (author, origin,
            # description, etc.) to XML as non-Element elements. Parse them
            # out here.
            return

        attribs = el.attrib.copy()
        eid = int(attribs['id'], 16) if 'id' in attribs else None
        ename = attribs['name'].strip() if 'name' in attribs else None
''', '''        tag = el.tag
        if tag == "Schema":
            for node in list(el):
                self._parseSchema(node, self)
            return

        known = tag in self.BASE_CLASSES
        if not known and tag.endswith('Element'):
            raise ValueError('Unknown element type: %s' % tag)
        if not known:
            return

        attribs = dict(el.attrib)
        eid, ename = attribs.get('id'), attribs.get('name')
        eid = None if eid is None else int(eid, 16)
        ename = None if ename is None else ename.strip()
''')]

TH = '''        return self.getThreadStream().%s(*args, **kwargs)
'''
R['second-rest'] = [(T, '''        try:
            self._ready.wait(self.timeout)
            self._ready.clear()
            for v in list(self.threads.values()):
                v.close()
        finally:
            self._ready.set()
''', '''        try:
            self._ready.wait(self.timeout)
            self._ready.clear()
            streams = [fp for fp in list(self.threads.values())]
            for fp in streams:
                fp.close()
        finally:
            self._ready.set()
'''), (T, '''        return True if fp is None else fp.closed
''', '''        if fp is None:
            return True
        return fp.closed
'''), (T, '''        if isinstance(fileStream, cls):
            return fileStream
        elif not isinstance(fileStream, io.IOBase):
            raise TypeError("Not a file: %r" % fileStream)

        f = cls(fileStream.name, fileStream.mode, _new=False)
        f._setThreadStream(fileStream)
        return f
''', '''        if isinstance(fileStream, cls):
            return fileStream
        if isinstance(fileStream, io.IOBase):
            aware = cls(fileStream.name, fileStream.mode, _new=False)
            aware._setThreadStream(fileStream)
            return aware
        raise TypeError("Not a file: %r" % fileStream)
'''), (T, '''        thread = currentThread()
        with self._lock:
            self.threads[thread.ident] = fp
            self._owners[thread.ident] = ref(thread)
''', '''        me = currentThread()
        owner = ref(me)
        with self._lock:
            self.threads[me.ident] = fp
            self._owners[me.ident] = owner
'''), (T, TH % 'seek', '''        stream = self.getThreadStream()
        return stream.seek(*args, **kwargs)
'''), (T, TH % 'read', '''        stream = self.getThreadStream()
        return stream.read(*args, **kwargs)
'''), (U, '''    depth = -1 if depth is None else depth

    def _flatiter(el, d, first):
        if not first:
            yield el
        if abs(d) > 0 and isinstance(el, core.MasterElement):
            for ch in el:
                for grandchild in _flatiter(ch, d-1, False):
                    yield grandchild

    for child in _flatiter(element, depth, True):
        yield child
''', '''    if depth is None:
        depth = -1

    def _below(el, d):
        if d != 0 and isinstance(el, core.MasterElement):
            for child in el:
                yield child
                yield from _below(child, d - 1)

    yield from _below(element, depth)
'''), (U, '''    else:
        val = cls.dtype(xmlEl.get('value', ''))

    size = xmlEl.get('size', None)
    if size is not None:
        size = int(size)
    sl = xmlEl.get('sizeLength')
    if sl is not None:
        sl = int(sl)

    if size == 0 and val == 0:
        # Empty integer elements are valid, and read as 0.
        encoded = encId + encoding.encodeSize(0, sl)
    else:
        encoded = cls.encode(val, size, lengthSize=sl)
    ebmlFile.write(encoded)
    return len(encoded)
''', '''    else:
        val = cls.dtype(xmlEl.get('value', ''))

    size, width = (None if xmlEl.get(k) is None else int(xmlEl.get(k)) for k in ('size', 'sizeLength'))
    empty = size == 0 and val == 0
    encoded = encId + encoding.encodeSize(0, width) if empty else cls.encode(val, size, lengthSize=width)
    ebmlFile.write(encoded)
    return len(encoded)
'''), (U, '''    if isinstance(el, core.Document):
        elname = el.__class__.__name__
    else:
        elname = el.name

    if parent is None:
        xmlEl = ET.Element(elname)
    else:
        xmlEl = ET.SubElement(parent, elname)
    if isinstance(el, core.Document):
        xmlEl.set('source', el.filename)
        xmlEl.set('schemaName', el.schema.name or '')
        xmlEl.set('schemaFile', el.schema.filename or '')
    else:
        if ids and isinstance(el.id, int):
            xmlEl.set('id', "0x%X" % el.id)
        if types:
            xmlEl.set('type', el.dtype.__name__)

    if offsets:
        xmlEl.set('offset', str(el.offset))
    if sizes:
        xmlEl.set('size', str(el.size))
''', '''    attribs = {}
    if isinstance(el, core.Document):
        elname = el.__class__.__name__
        attribs['source'] = el.filename
        attribs['schemaName'] = el.schema.name or ''
        attribs['schemaFile'] = el.schema.filename or ''
    else:
        elname = el.name
        if ids and isinstance(el.id, int):
            attribs['id'] = "0x{:X}".format(el.id)
        if types:
            attribs['type'] = el.dtype.__name__

    if offsets:
        attribs['offset'] = str(el.offset)
    if sizes:
        attribs['size'] = str(el.size)

    xmlEl = ET.Element(elname) if parent is None else ET.SubElement(parent, elname)
    for key, text in attribs.items():
        xmlEl.set(key, text)
'''), (U, '''        for k, v in schemata.items():
            out.write("{}\\n".format(k))
            for s in v:
                out.write("    {}\\n".format(s))
        out.flush()
''', '''        lines = []
        for k, v in schemata.items():
            lines.append("{}\\n".format(k))
            lines.extend("    {}\\n".format(s) for s in v)
        for line in lines:
            out.write(line)
        out.flush()
'''), (X, '''        newline = bool(self.cols)
        offsets = self.offsets and newline

        numbytes = 0
        for i, b in enumerate(data):
            if newline and not i % self.cols:
                numbytes += out.write('\\n')
                numbytes += out.write(indent)
                if offsets:
                    numbytes += out.write('[{:06d}] '.format(i + offset))
            elif not i % self.width:
                numbytes += out.write(' ')
            numbytes += out.write('{:02x}'.format(b))
''', '''        cols = self.cols
        showOffsets = cols and self.offsets

        numbytes = 0
        for i in range(len(data)):
            before = ''
            if cols and i % cols == 0:
                before = '\\n' + indent
                if showOffsets:
                    before += '[{:06d}] '.format(i + offset)
            elif i % self.width == 0:
                before = ' '
            numbytes += out.write(before + '{:02x}'.format(data[i]))
'''), (X, '''        for word in data.split():
            if b'[' in word or b']' in word:
                continue
            for i in range(0, len(word), 2):
                numbytes += out.write((int(word[i:i+2], 16).to_bytes(1, 'big')))
''', '''        for word in data.split():
            if b'[' not in word and b']' not in word:
                values = [int(word[i:i+2], 16) for i in range(0, len(word), 2)]
                numbytes += out.write(bytes(values))
'''), (X, '''        result = result.replace('\\n', '')

        if not self.cols:
            if stream is not None:
                return out.write(result)
            return result

        numbytes = 0
        for chunk in range(0, len(result), self.cols):
            numbytes += out.write('\\n')
            numbytes += out.write(indent) + out.write(result[chunk:chunk+self.cols])
''', '''        result = ''.join(result.splitlines())
        width = self.cols or 0

        if not width:
            return result if stream is None else out.write(result)

        numbytes = 0
        start = 0
        while start < len(result):
            numbytes += out.write('\\n' + indent + result[start:start + width])
            start += width
''')]


def main(args):
    checks = [a for a in args if re.fullmatch(r'C\d\d', a)] or ['C%02d' % i for i in range(1, 36)]
    names = [a for a in args if a in R] or list(R)
    for name in names:
        w = '/tmp/rf-' + name
        shutil.rmtree(w, ignore_errors=True)
        shutil.copytree('/repo', w, symlinks=True)
        for f, a, b in R[name]:
            s = open(w + '/' + f).read()
            if s.count(a) != 1:
                sys.exit('%s: %d times in %s: %s' % (name, s.count(a), f, a))
            open(w + '/' + f, 'w').write(s.replace(a, b))
        r = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', './tests', '-q', '-p', 'no:cacheprovider', '--deselect', 'tests/test_tools.py'], cwd=w, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           env=dict(os.environ, PYTHONPATH=w, PYTHONDONTWRITEBYTECODE='1'))
        print(name, r.stdout.strip().split('\n')[-1], flush=True)
        for c in checks:
            t = time.time()
            r = subprocess.run(['timeout', '900', V + '/check', c, 'quick'], cwd=V, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, VERIF_REPO=w, VERIF_SEED='1', VERIF_TIER='quick'))
            print('  %s %s rc=%d %.0fs %s' % (name, c, r.returncode, time.time() - t, '' if not r.returncode else 'ALARM ' + r.stdout[-600:]), flush=True)
        shutil.rmtree(w, ignore_errors=True)


main(sys.argv[1:])
