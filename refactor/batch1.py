""" Edits that change no behaviour; `tools/seed.py quiet FILE` confirms that every check stays quiet. """
C = 'ebmlite/core.py'; U = 'ebmlite/util.py'; T = 'ebmlite/threaded_file.py'; D = 'ebmlite/decoding.py'; E_ = 'ebmlite/encoding.py'
K = 'ebmlite/tools/utils.py'; X = 'ebmlite/xml_codecs.py'
EDITS = {}

EDITS['threads-renamed'] = [(T, None, [('self.threads', 'self._streams'), ('f.threads[', 'f._streams[')])]

EDITS['threads-lock'] = [
    (T, '''        self._cleaning = Lock()
''', '''        self._cleaning = Lock()
        self._opening = Lock()
'''),
    (T, '''        fp = self.threads.get(ident)
        if fp is None:
            # First access from this thread. Open the file.
            fp = io.FileIO(*self.initArgs, **self.initKwargs)
            self.threads[ident] = fp
        return fp
''', '''        with self._opening:
            try:
                return self.threads[ident]
            except KeyError:
                pass
        # First access from this thread. Open the file.
        stream = io.FileIO(*self.initArgs, **self.initKwargs)
        with self._opening:
            self.threads[ident] = stream
        return stream
''')]

EDITS['threads-helper'] = [
    (T, '''        try:
            self._ready.wait(self.timeout)
            self._ready.clear()
            for v in list(self.threads.values()):
                v.close()
        finally:
            self._ready.set()
''', '''        with self._housekeeping():
            streams = list(self.threads.values())
            while streams:
                streams.pop(0).close()

    @contextlib.contextmanager
    def _housekeeping(self):
        """ Makes other threads' new accesses wait. """
        try:
            self._ready.wait(self.timeout)
            self._ready.clear()
            yield
        finally:
            self._ready.set()
'''), (T, '''        with self._cleaning:
            try:
                self._ready.wait(self.timeout)
                self._ready.clear()

                for i, fp in list(self.threads.items()):
                    if fp.closed:
                        self.threads.pop(i, None)
            finally:
                self._ready.set()
''', '''        with self._cleaning, self._housekeeping():
            closed = [i for i, fp in list(self.threads.items()) if fp.closed]
            for i in closed:
                self.threads.pop(i, None)
'''), (T, 'import io\n', 'import contextlib\nimport io\n')]

EDITS['parse-split'] = [(C, '''        offset = stream.tell()
        eid, idlen = readElementID(stream)
        esize, sizelen = readElementSize(stream)
        payloadOffset = offset + idlen + sizelen

        try:
            etype = self.schema.elements[eid]
            el = etype(stream, offset, esize, payloadOffset)
        except KeyError:
            el = self.schema.UNKNOWN(stream, offset, esize, payloadOffset,
                                     eid=eid, schema=self.schema)

        if el.precache and not nocache:
            # Read the value now, avoiding a seek later.
            el._value = el.parse(stream, el.size)

        return el, payloadOffset + el.size
''', '''        eid, offset, payloadOffset, esize = self._readHeader(stream)
        el = self._makeElement(stream, eid, offset, esize, payloadOffset)

        if not nocache and el.precache:
            # Read the value now, avoiding a seek later.
            el._value = el.parse(stream, el.size)

        end = payloadOffset + el.size
        return el, end

    @staticmethod
    def _readHeader(stream):
        """ Read an element header: ID, offset, payload offset, and size. """
        start = stream.tell()
        eid, idlen = readElementID(stream)
        size, sizelen = readElementSize(stream)
        return eid, start, start + idlen + sizelen, size

    def _makeElement(self, stream, eid, offset, size, payloadOffset):
        """ Instantiate the right kind of element. """
        etype = self.schema.elements.get(eid)
        if etype is not None:
            return etype(stream, offset, size, payloadOffset)
        return self.schema.UNKNOWN(stream, offset, size, payloadOffset,
                                   eid=eid, schema=self.schema)
''')]

EDITS['master-iter'] = [(C, '''        pos = self.payloadOffset
        payloadEnd = pos + self.size

        while pos < payloadEnd:
            self.stream.seek(pos)
            try:
                el, pos = self.parseElement(self.stream, nocache=nocache)
                yield el
            except TypeError as err:
                if "ord()" in str(err):
                    break
                raise
''', '''        payloadEnd = self.size + self.payloadOffset
        pos = self.payloadOffset
        while True:
            if pos >= payloadEnd:
                return
            self.stream.seek(pos)
            try:
                el, pos = self.parseElement(self.stream, nocache=nocache)
            except TypeError as err:
                if "ord()" not in str(err):
                    raise
                return
            yield el
''')]

EDITS['size-helper'] = [(C, '''        try:
            return self._size
        except AttributeError:
            # An "infinite" element (size specified in file is all 0xFF)
            pos = self.payloadOffset
            numChildren = 0
            while True:
                self.stream.seek(pos)
                end = pos
                try:
                    # TODO: Cache parsed elements?
                    el, pos = self.parseElement(self.stream, nocache=True)
                    if self._isValidChild(el.id):
                        numChildren += 1
                    else:
                        break
                except TypeError as err:
                    # Will occur at end of file; message will contain "ord()".
                    if "ord()" in str(err):
                        break
                    # Not the expected EOF TypeError!
                    raise

            self._size = end - self.payloadOffset
            self._length = numChildren
            return self._size
''', '''        if not hasattr(self, '_size'):
            # An "infinite" element (size specified in file is all 0xFF)
            end, count = self._findEnd()
            self._length = count
            self._size = end - self.payloadOffset
        return self._size

    def _findEnd(self):
        """ The end of an "infinite" element, and the number of its children. """
        end, count = self.payloadOffset, 0
        while True:
            self.stream.seek(end)
            try:
                el, following = self.parseElement(self.stream, nocache=True)
            except TypeError as err:
                # Will occur at end of file; message will contain "ord()".
                if "ord()" not in str(err):
                    raise
                return end, count
            if not self._isValidChild(el.id):
                return end, count
            end, count = following, count + 1
''')]

EDITS['document-init'] = [(C, '''        self._value = None
        self.stream = stream
        self.size = size
        self.name = name
        self.id = None  # Not applicable to Documents.
        try:
            self.offset = self.payloadOffset = self.stream.tell()
        except Exception:
            # e.g. a pipe. Don't leave open what no one else can close.
            self.close()
            raise

        try:
            self.filename = stream.name
            if isinstance(self.filename, int):
                # An anonymous file (e.g. temporary); its 'name' is its number.
                self.filename = ""
                if size is None:
                    self.size = os.fstat(stream.name).st_size
        except AttributeError:
            self.filename = ""

        if name is None:
            if self.filename:
                self.name = os.path.splitext(os.path.basename(self.filename))[0]
            else:
                self.name = self.__class__.__name__
''', '''        self.stream = stream
        self.id = None  # Not applicable to Documents.
        self._value = None
        try:
            start = stream.tell()
        except Exception:
            if self._ownsStream:
                stream.close()
            raise
        self.payloadOffset = start
        self.offset = self.payloadOffset
        self.size = size

        fname = getattr(stream, 'name', "")
        if isinstance(fname, int):
            # An anonymous file (e.g. temporary); its 'name' is its number.
            if size is None:
                self.size = os.fstat(fname).st_size
            fname = ""
        self.filename = fname

        if name is not None:
            self.name = name
        elif not fname:
            self.name = type(self).__name__
        else:
            base, _ext = os.path.splitext(os.path.basename(fname))
            self.name = base
''')]

EDITS['schema-init'] = [(C, '''        # Create the schema's Document subclass. Its name also serves as the
        # root element when converted to XML, so it must be usable as such.
        docname = re.sub(r'[^\\w.-]', '_', self.name.title()) + 'Document'
        if not (docname[0].isalpha() or docname[0] == '_'):
            docname = '_' + docname
        self.document = type(docname, (Document,),
                             {'schema': self, 'children': self.children})
''', '''        self.document = self._makeDocument()

    def _makeDocument(self):
        """ Create the schema's Document subclass. Its name also serves as the
            root element when converted to XML, so it must be usable as such.
        """
        docname = _NOT_IN_NAMES.sub('_', self.name.title()) + 'Document'
        if docname[0] != '_' and not docname[0].isalpha():
            docname = '_' + docname
        return type(docname, (Document,), dict(children=self.children, schema=self))
'''), (C, '''class Schema(object):
''', '''_NOT_IN_NAMES = re.compile(r'[^\\w.-]')


class Schema(object):
'''), (C, '''        if 'Void' in self.elementsByName:
            el = self.elementsByName['Void']
            void''', '''        el = self.elementsByName.get('Void')
        if el is not None:
            void''')]

EDITS['add-element'] = [(C, '''            mandatory = _getBool(attribs, 'mandatory', False)
            multiple = _getBool(attribs, 'multiple', False)
            precache = _getBool(attribs, 'precache', baseClass.precache)
            length = _getInt(attribs, 'length', None)
            isGlobal = _getBool(attribs, 'global', None)
''', '''            isGlobal = _getBool(attribs, 'global', None)
            length = _getInt(attribs, 'length', None)
            flags = {k: _getBool(attribs, k, default) for k, default in
                     (('precache', baseClass.precache), ('multiple', False), ('mandatory', False))}
'''), (C, '''                          {'id': eid, 'name': ename, 'schema': self,
                           'mandatory': mandatory, 'multiple': multiple,
                           'precache': precache, 'length': length,
                           'children': set(), '__doc__': docs,
                           '__slots__': baseClass.__slots__})

            self.elements[eid] = eclass
            self.elementInfo[eid] = attribs
            self.elementsByName[ename] = eclass
''', '''                          dict(flags, id=eid, name=ename, schema=self,
                               length=length, children=set(), __doc__=docs,
                               __slots__=baseClass.__slots__))

            self.elementsByName[ename] = eclass
            self.elementInfo[eid] = attribs
            self.elements[eid] = eclass
'''), (C, '''        parent = parent or self
        if parent.children is None:
            parent.children = set()
        parent.children.add(eid)
''', '''        owner = self if not parent else parent
        owner.children = set() if owner.children is None else owner.children
        owner.children.add(eid)
''')]

EDITS['load-schema'] = [(C, '''    if not filename.is_file():
        if isinstance(filename, Path) and len(filename.parts) == 1:
            # Not a specific path and file not found: search paths in SCHEMA_PATH
            for p in paths:
                try:
                    f = _expandSchemaPath(p, filename)
                    if f.is_file():
                        filename = f
                        break
                except ModuleNotFoundError:
                    continue
''', '''    if isinstance(filename, Path) and not filename.is_file() and len(filename.parts) == 1:
        # Not a specific path and file not found: search paths in SCHEMA_PATH
        filename = next(_candidates(paths, filename), filename)
'''), (C, '''def loadSchema(filename: Union[str, Path],
''', '''def _candidates(paths, filename):
    """ The existing files of the given name, in the order of the paths. """
    for p in paths:
        try:
            f = _expandSchemaPath(p, filename)
            found = f.is_file()
        except ModuleNotFoundError:
            continue
        if found:
            yield f


def loadSchema(filename: Union[str, Path],
''')]

EDITS['list-schemata'] = [(C, '''        for p in fullpath.iterdir():
            key = p.name
            if key.lower().endswith('.xml'):
                try:
                    # Opened by `p`: it may be a resource of a zipped package.
                    with p.open('rb') as fs:
                        xml = ET.parse(fs)
                    if xml.getroot().tag == 'Schema':
                        value = p if absolute else Path(path) / p.name
                        schemata.setdefault(key, []).append(value)
                except (ET.ParseError, IOError, TypeError, LookupError, ValueError):
                    # (the last two are for encodings that can't be read)
                    continue
''', '''        for p in fullpath.iterdir():
            if not p.name.lower().endswith('.xml'):
                continue
            try:
                with p.open('rb') as source:
                    tag = ET.parse(source).getroot().tag
            except (ET.ParseError, OSError, TypeError, ValueError, LookupError):
                continue
            if tag != 'Schema':
                continue
            if p.name not in schemata:
                schemata[p.name] = []
            schemata[p.name].append(p if absolute else Path(path) / p.name)
''')]

EDITS['value-helper'] = [(C, '''        if self._value is not None:
            return self._value
        self.stream.seek(self.payloadOffset)
        self._value = self.parse(self.stream, self.size)
        return self._value

    def getRaw''', '''        if self._value is None:
            self._value = self._readValue()
        return self._value

    def _readValue(self):
        """ Read the value from the stream. """
        size = self.size
        self.stream.seek(self.payloadOffset)
        return self.parse(self.stream, size)

    def getRaw'''), (C, '''        if self._value is None:
            return 0

        self._value = None
        return 1
''', '''        had = self._value is not None
        self._value = None
        return int(had)
'''), (C, '''        size = self.size + (self.payloadOffset - self.offset)
        self.stream.seek(self.offset)
        return self.stream.read(size)
''', '''        end = self.size + self.payloadOffset
        return self._readAt(self.offset, end - self.offset)

    def _readAt(self, pos, count):
        self.stream.seek(pos)
        return self.stream.read(count)
''')]

EDITS['precache-seek'] = [(C, '''            # Read the value now, avoiding a seek later.
            el._value = el.parse(stream, el.size)
''', '''            # Read the value now.
            size = el.size
            stream.seek(payloadOffset)
            el._value = el.parse(stream, size)
''')]

EDITS['equality'] = [(C, '''            return (self.dtype == other.dtype
                    and self.id == other.id
                    and self.offset == other.offset
                    and self.size == other.size
                    and self.schema == other.schema)
''', '''            for attr in ('id', 'offset', 'dtype', 'size'):
                if getattr(self, attr) != getattr(other, attr):
                    return False
            return bool(other.schema == self.schema)
'''), (C, '''            return (self.name == other.name
                    and self.id == other.id
                    and self.value == other.value)
''', '''            mine = (self.id, self.name)
            if mine != (other.id, other.name):
                return False
            return self.value == other.value
''')]

EDITS['to-xml'] = [(U, '''    if offsets:
        xmlEl.set('offset', str(el.offset))
    if sizes:
        xmlEl.set('size', str(el.size))

    if isinstance(el, core.MasterElement):
        for chEl in el:
            toXml(chEl, xmlEl, offsets, sizes, types, ids, binary_codec, void_codec)
''', '''    for wanted, attr in ((offsets, 'offset'), (sizes, 'size')):
        if wanted:
            xmlEl.set(attr, '%d' % getattr(el, attr) if getattr(el, attr) is not None else 'None')

    if isinstance(el, core.MasterElement):
        kwargs = dict(offsets=offsets, sizes=sizes, types=types, ids=ids,
                      binary_codec=binary_codec, void_codec=void_codec)
        for chEl in el:
            toXml(chEl, parent=xmlEl, **kwargs)
''')]

EDITS['xml-value'] = [(U, '''    elif issubclass(cls, core.DateElement):
        val = datetime.fromisoformat(xmlEl.get('value'))
    elif issubclass(cls, core.FloatElement):
        val = xmlEl.get('value')
        try:
            val = float(val)  # including infinity and NaN
        except ValueError:
            val = ast.literal_eval(val)
    elif issubclass(cls, core.IntegerElement):
        val = ast.literal_eval(xmlEl.get('value'))
    else:
        val = cls.dtype(xmlEl.get('value'))
''', '''    else:
        val = _parseValue(cls, xmlEl.get('value'))
'''), (U, '''def xmlElement2ebml(xmlEl,
''', '''def _parseValue(cls, text):
    """ The value of a non-binary element in XML. """
    if issubclass(cls, core.FloatElement):
        try:
            return float(text)  # including infinity and NaN
        except ValueError:
            return ast.literal_eval(text)
    if issubclass(cls, core.DateElement):
        return datetime.fromisoformat(text)
    if issubclass(cls, core.IntegerElement):
        return ast.literal_eval(text)
    return cls.dtype(text)


def xmlElement2ebml(xmlEl,
''')]

EDITS['flatiter-stack'] = [(U, '''    def _flatiter(el, d, first):
        if not first:
            yield el
        if abs(d) > 0 and isinstance(el, core.MasterElement):
            for ch in el:
                for grandchild in _flatiter(ch, d-1, False):
                    yield grandchild

    for child in _flatiter(element, depth, True):
        yield child
''', '''    if depth == 0 or not isinstance(element, core.MasterElement):
        return
    stack = [iter(element)]
    while stack:
        try:
            el = next(stack[-1])
        except StopIteration:
            stack.pop()
            continue
        yield el
        if len(stack) != depth and isinstance(el, core.MasterElement):
            stack.append(iter(el))
''')]

EDITS['hex-rows'] = [(X, '''        numbytes = 0
        for i, b in enumerate(data):
            if newline and not i % self.cols:
                numbytes += out.write('\\n')
                numbytes += out.write(indent)
                if offsets:
                    numbytes += out.write('[{:06d}] '.format(i + offset))
            elif not i % self.width:
                numbytes += out.write(' ')
            numbytes += out.write('{:02x}'.format(b))
''', '''        text = []
        for i, b in enumerate(data):
            if newline and i % self.cols == 0:
                text.extend(('\\n', indent))
                if offsets:
                    text.append('[%06d] ' % (offset + i))
            elif i % self.width == 0:
                text.append(' ')
            text.append('%02x' % b)
        numbytes = out.write(''.join(text))
''')]

EDITS['decoding-ints'] = [(D, '''    # An inelegant implementation, but it's fast.
    if byte >= 128:
        return 1, byte & 0b1111111
    elif byte >= 64:
        return 2, byte & 0b111111
    elif byte >= 32:
        return 3, byte & 0b11111
    elif byte >= 16:
        return 4, byte & 0b1111
    elif byte >= 8:
        return 5, byte & 0b111
    elif byte >= 4:
        return 6, byte & 0b11
    elif byte >= 2:
        return 7, byte & 0b1

    return 8, 0
''', '''    length = 1
    while length < 8 and not byte >> (8 - length):
        length += 1
    return length, byte & ((1 << (8 - length)) - 1) & 0x7f
'''), (D, '''    data = stream.read(size)
    return _struct_uint64_unpack_from(data.rjust(8, b'\\x00'))[0]
''', '''    return int.from_bytes(stream.read(size)[:8] if size > 8 else stream.read(size), 'big')
'''), (D, '''    if length > 1:
        size = _struct_uint64_unpack((chr(size).encode('latin-1') +
                                      stream.read(length - 1)
                                      ).rjust(8, b'\\x00'))[0]
''', '''    if length > 1:
        rest = bytes([size]) + stream.read(length - 1)
        size = int.from_bytes(rest, 'big')
''')]

EDITS['encoding-ints'] = [(E_, '''    # Brute force it. Ugly but faster than calculating it.
    if val <= 126:
        return 1
    elif val <= 16382:
        return 2
    elif val <= 2097150:
        return 3
    elif val <= 268435454:
        return 4
    elif val <= 34359738366:
        return 5
    elif val <= 4398046511102:
        return 6
    elif val <= 562949953421310:
        return 7
    else:
        return 8
''', '''    for n in range(1, 8):
        if val < (1 << (7 * n)) - 1:
            return n
    return 8
'''), (E_, '''        if val >= 0:
            pad = b'\\x00'
            packed = _struct_int64.pack(val).lstrip(pad) or pad
            if packed[0] & 0b10000000:
                packed = pad + packed
        else:
            pad = b'\\xff'
            packed = _struct_int64.pack(val).lstrip(pad) or pad
            if not packed[0] & 0b10000000:
                packed = pad + packed
''', '''        whole = _struct_int64.pack(val)
        pad = b'\\xff' if val < 0 else b'\\x00'
        packed = whole.lstrip(pad) or pad
        if (packed[0] ^ pad[0]) >= 0x80:
            # The sign would change
            packed = pad + packed
''')]

EDITS['tools-load'] = [(K, '''    schema = None
    try:
        schema_file = args.schema
        if os.path.splitext(schema_file.strip())[1] == '':
            schema_file += '.xml'
        schema = core.loadSchema(schema_file)
    except IOError as err:
        errPrint("Error loading schema: %s\\n" % err)
''', '''    schema = _load_schema(args.schema)
'''), (K, '''@contextlib.contextmanager
''', '''def _load_schema(name):
    _base, ext = os.path.splitext(name.strip())
    try:
        return core.loadSchema(name if ext else name + '.xml')
    except IOError as err:
        errPrint("Error loading schema: %s\\n" % err)


@contextlib.contextmanager
''')]

EDITS['encode-loop'] = [(C, '''        for k, v in data:
            if k not in cls.schema:
                raise TypeError("Element type %r not found in schema" % k)
            # TODO: Validation of hierarchy, multiplicity, mandate, etc.
            result.extend(cls.schema[k].encode(v))

        return result
''', '''        schema = cls.schema
        for k, v in data:
            child = schema.get(k)
            if child is None:
                raise TypeError("Element type %r not found in schema" % k)
            # TODO: Validation of hierarchy, multiplicity, mandate, etc.
            result += child.encode(v)

        return result
'''), (C, '''            result = bytearray()
            for v in data:
                result.extend(cls.encode(v, length=length,
                                         lengthSize=lengthSize,
                                         infinite=infinite))
            return result
''', '''            parts = [cls.encode(v, length=length, lengthSize=lengthSize,
                                infinite=infinite) for v in data]
            return bytearray().join(parts)
''')]

EDITS['pprint-lines'] = [(U, '''        out.write("%06s %06s %s %s (ID 0x%0X)" % (el.offset, el.size, tab, el.name, el.id))
        if isinstance(el, core.MasterElement):
            out.write(": (master) %d subelements\\n" % len(el.value))
''', '''        line = "{:>6} {:>6} {} {} (ID 0x{:X})".format(el.offset, el.size, tab, el.name, el.id)

        if isinstance(el, core.MasterElement):
            out.write("%s: (master) %d subelements\\n" % (line, len(el.value)))
'''), (U, '''            out.write(": (%s)" % el.dtype.__name__)
''', '''            out.write("%s: (%s)" % (line, el.dtype.__name__))
''')]

EDITS['dump-group'] = [(C, '''        result = {}
        for el in self:
            if el.multiple:
                result.setdefault(el.name, []).append(el.dump())
            else:
                result[el.name] = el.dump()
        return result
''', '''        result = {}
        for el in self:
            value = el.dump()
            if not el.multiple:
                result[el.name] = value
            elif el.name in result:
                result[el.name].append(value)
            else:
                result[el.name] = [value]
        return result
''')]
