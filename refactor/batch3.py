""" A third set of edits that change no behaviour; `tools/seed.py quiet FILE` confirms that every check stays quiet. """
C = 'ebmlite/core.py'; U = 'ebmlite/util.py'; T = 'ebmlite/threaded_file.py'; D = 'ebmlite/decoding.py'; E_ = 'ebmlite/encoding.py'
K = 'ebmlite/tools/utils.py'; X = 'ebmlite/xml_codecs.py'
EDITS = {}

EDITS['headers-comprehension'] = [(C, '''        headers = {}
        for elName, elType in (('EBMLVersion', int),
                               ('EBMLReadVersion', int),
                               ('DocType', str),
                               ('DocTypeVersion', int),
                               ('DocTypeReadVersion', int)):
            if elName in cls.schema:
                v = cls.schema._getInfo(cls.schema[elName].id, elType)
                if v is not None:
                    headers[elName] = v

        return dict(EBML=headers)
''', '''        schema = cls.schema
        types = (('EBMLVersion', int), ('EBMLReadVersion', int),
                 ('DocType', str), ('DocTypeVersion', int),
                 ('DocTypeReadVersion', int))
        found = [(name, schema._getInfo(schema[name].id, dtype))
                 for name, dtype in types if name in schema]
        return {'EBML': {name: v for name, v in found if v is not None}}
''')]

EDITS['document-getitem'] = [(C, '''            n = None
            for n, el in enumerate(self):
                if n == idx:
                    return el
            if n is None:
                # If object being enumerated is empty, `n` is never set.
                raise IndexError("Document contained no readable data")
            raise IndexError("list index out of range (0-{})".format(n))
''', '''            count = 0
            for el in self:
                if count == idx:
                    return el
                count += 1
            if not count:
                raise IndexError("Document contained no readable data")
            raise IndexError("list index out of range (0-%d)" % (count - 1))
''')]

EDITS['document-iter'] = [(C, '''        pos = self.payloadOffset
        while True:
            self.stream.seek(pos)
            try:
                el, pos = self.parseElement(self.stream, nocache=nocache)
                yield el
            except TypeError as err:
                # Occurs at end of file (parsing 0 length string), it's okay.
                if "ord()" not in str(err):
                    # (Apparently) not the TypeError raised at EOF!
                    raise
                break
''', '''        pos = self.payloadOffset
        stream = self.stream
        done = False
        while not done:
            stream.seek(pos)
            try:
                el, pos = self.parseElement(stream, nocache=nocache)
                yield el
            except TypeError as err:
                # Occurs at end of file (parsing 0 length string), it's okay.
                done = "ord()" in str(err)
                if not done:
                    raise
''')]

EDITS['document-len'] = [(C, '''        try:
            return self._length
        except AttributeError:
            n = 0  # in case there's nothing to enumerate
            for n, _el in enumerate(self.__iter__(nocache=True), 1):
                pass
            self._length = n
        return self._length

    def __iter__(self, nocache: bool = False):
        """ Iterate root elements.
''', '''        if not hasattr(self, '_length'):
            self._length = sum(1 for _ in self.__iter__(nocache=True))
        return self._length

    def __iter__(self, nocache: bool = False):
        """ Iterate root elements.
''')]

EDITS['document-close'] = [(C, '''        if self._ownsStream:
            self.stream.close()

    def __len__''', '''        if not self._ownsStream:
            return
        self.stream.close()

    def __len__'''), (C, '''        self._ownsStream = False
        if isinstance(stream, (str, Path)):
            stream = open(stream, 'rb')
            self._ownsStream = True
''', '''        self._ownsStream = isinstance(stream, (str, Path))
        if self._ownsStream:
            stream = open(stream, mode='rb')
''')]

EDITS['encodes-with'] = [(C, '''        stream = BytesIO()
        self.encode(stream, data, headers=headers)
        return stream.getvalue()
''', '''        with BytesIO() as stream:
            return self.encode(stream, data, headers=headers).getvalue()
''')]

EDITS['expand-path'] = [(C, '''    # Note: appending an empty part makes files in zipped packages directories.
    for part in (subdir, name):
        if str(part):
            result = result / part
    return result
''', '''    # Note: appending an empty part makes files in zipped packages directories.
    if subdir:
        result = result / subdir
    return result / name if str(name) else result
''')]

EDITS['search-helper'] = [(C, '''        if isinstance(filename, Path) and len(filename.parts) == 1:
            # Not a specific path and file not found: search paths in SCHEMA_PATH
            for p in paths:
                try:
                    f = _expandSchemaPath(p, filename)
                    if f.is_file():
                        filename = f
                        break
                except ModuleNotFoundError:
                    continue
''', '''        if isinstance(filename, Path) and len(filename.parts) == 1:
            filename = _searchPaths(filename, paths)
'''), (C, '''def loadSchema(filename: Union[str, Path],
''', '''def _searchPaths(filename, paths):
    """ Find a schema file in the schema paths. Returns the name itself if
        it is in none of them.
    """
    for p in paths:
        try:
            f = _expandSchemaPath(p, filename)
        except ModuleNotFoundError:
            continue
        if f.is_file():
            return f
    return filename


def loadSchema(filename: Union[str, Path],
''')]

EDITS['list-generator'] = [(C, '''    schemata = {}
    paths = paths or SCHEMA_PATH

    for path in paths:
        try:
            fullpath = _expandSchemaPath(path)
        except ModuleNotFoundError:
            continue

        if absolute and isinstance(fullpath, Path):
''', '''    schemata = {}

    for path in (paths if paths else SCHEMA_PATH):
        try:
            fullpath = _expandSchemaPath(path)
        except ModuleNotFoundError:
            fullpath = None

        if fullpath is None:
            continue

        if absolute and isinstance(fullpath, Path):
''')]

EDITS['parse-schema'] = [(C, '''    if name in SCHEMATA and not reload:
        return SCHEMATA[name]

    if isinstance(src, IOBase):
        stream = src
    else:
        stream = StringIO(src)

    schema = Schema(stream, name=name, **kwargs)
    name = name or schema.name
    SCHEMATA[name] = schema
    return schema''', '''    if not reload:
        found = SCHEMATA.get(name)
        if found is not None:
            return found

    schema = Schema(src if isinstance(src, IOBase) else StringIO(src),
                    name=name, **kwargs)
    SCHEMATA[name or schema.name] = schema
    return schema''')]

EDITS['get-info'] = [(C, '''        try:
            return dtype(self.elementInfo[eid]['default'])
        except (KeyError, ValueError):
            return None
''', '''        default = self.elementInfo.get(eid, {}).get('default')
        if default is None:
            return None
        try:
            return dtype(default)
        except ValueError:
            return None
''')]

EDITS['duplicate-check'] = [(C, '''            newatts = self.elementInfo[eid].copy()
            newatts.update(attribs)
            if self.elementInfo[eid] == newatts:
                eclass = self.elements[eid]
            else:
                raise TypeError('Element %r (ID 0x%02X) redefined with '
                                'different attributes' % (ename, eid))
''', '''            known = self.elementInfo[eid]
            if any(k not in known or known[k] != v for k, v in attribs.items()):
                raise TypeError('Element %r (ID 0x%02X) redefined with '
                                'different attributes' % (ename, eid))
            eclass = self.elements[eid]
''')]

EDITS['close-all'] = [(T, '''        try:
            self._ready.wait(self.timeout)
            self._ready.clear()
            for v in list(self.threads.values()):
                v.close()
        finally:
            self._ready.set()
''', '''        self._ready.wait(self.timeout)
        try:
            self._ready.clear()
            streams = list(self.threads.values())
            while streams:
                streams.pop(0).close()
        finally:
            self._ready.set()
''')]

EDITS['cleanup-list'] = [(T, '''                for i, fp in list(self.threads.items()):
                    if fp.closed:
                        self.threads.pop(i, None)
''', '''                items = list(self.threads.items())
                for i in [ident for ident, fp in items if fp.closed]:
                    self.threads.pop(i, None)
''')]

EDITS['thread-mode'] = [(T, '''        mode = args[1] if len(args) > 1 else kwargs.get('mode', 'r')
        if isinstance(mode, str):
            if any(m in mode for m in 'awx+'):
                raise IOError("%s is read-only" % self.__class__.__name__)
''', '''        if len(args) > 1:
            mode = args[1]
        else:
            mode = kwargs.get('mode', 'r')
        if isinstance(mode, str) and set(mode).intersection('awx+'):
            raise IOError("{} is read-only".format(type(self).__name__))
'''), (T, '''        self._ready = Event()  # NOT a lock; some things block, others wait
        self._ready.set()

        # One `cleanup()` at a time. Only it removes streams; another one could
        # otherwise remove a stream reopened since it found the old one closed.
        self._cleaning = Lock()

        self.threads = {}
''', '''        self.threads = {}

        # One `cleanup()` at a time. Only it removes streams; another one could
        # otherwise remove a stream reopened since it found the old one closed.
        self._cleaning = Lock()

        self._ready = Event()  # NOT a lock; some things block, others wait
        self._ready.set()
''')]

EDITS['thread-closed'] = [(T, '''        fp = self.threads.get(self._getIdent())
        return fp is None or fp.closed
''', '''        try:
            return self.threads[self._getIdent()].closed
        except KeyError:
            return True
''')]

EDITS['base64-encode'] = [(X, '''        if self.cols == 76:
            # Default width of a base64 line; use existing newlines
            result = "\\n" + result
            if indent:
                result = result.replace('\\n', '\\n' + indent)
            if stream is not None:
                return out.write(result)
            return result
''', '''        if self.cols == 76:
            # Default width of a base64 line; use existing newlines
            lines = ("\\n" + result).split('\\n')
            result = ('\\n' + indent).join(lines)
            return result if stream is None else stream.write(result)
''')]

EDITS['encode-size'] = [(E_, '''    explicit = not (length is None or length == -1)
    length = length if explicit else getLength(val)
    try:
        prefix = LENGTH_PREFIXES[length]
        if explicit and val >= prefix - 1:
            # Too big: the value would run into the length marker bits, or be
            # mistaken for an 'unknown' size.
            raise ValueError
        return encodeUInt(val | prefix, length)
    except (IndexError, TypeError, ValueError):
        raise ValueError("Cannot encode element size %s" % length)
''', '''    if length is None or length == -1:
        length, explicit = getLength(val), False
    else:
        explicit = True
    try:
        prefix = LENGTH_PREFIXES[length]
        if not explicit or val < prefix - 1:
            return encodeUInt(prefix | val, length)
    except (IndexError, TypeError, ValueError):
        pass
    raise ValueError("Cannot encode element size %s" % length)
''')]

EDITS['encode-strings'] = [(E_, '''    if isinstance(val, str):
        val = val.encode('ascii', 'replace')
    elif not isinstance(val, (bytearray, bytes)):
        raise TypeError('Cannot encode {} {!r} as ASCII string'.format(type(val).__name__, val))

    if length is not None:
        val = val[:length]

    return encodeBinary(val.translate(STRING_CHARACTERS), length)
''', '''    if not isinstance(val, (str, bytearray, bytes)):
        raise TypeError('Cannot encode {} {!r} as ASCII string'.format(type(val).__name__, val))

    data = val.encode('ascii', 'replace') if isinstance(val, str) else val
    data = data.translate(STRING_CHARACTERS)
    return encodeBinary(data if length is None else data[:length], length)
'''), (E_, '''    if isinstance(val, str):
        val = val.encode('utf_8')

    if length is not None:
        val = val[:length]

    return encodeBinary(val, length)
''', '''    data = val.encode('utf_8') if isinstance(val, str) else val
    return encodeBinary(data if length is None else data[:length], length)
''')]

EDITS['xml-size-length'] = [(U, '''    if sizeLength is None:
        sl = xmlEl.get('sizeLength', None)
        if sl is None:
            s = xmlEl.get('size', None)
            if s is not None:
                sl = encoding.getLength(int(s))
            else:
                sl = 4
        else:
            sl = int(sl)
    else:
        sl = int(xmlEl.get('sizeLength', sizeLength))
''', '''    if 'sizeLength' in xmlEl.attrib:
        sl = int(xmlEl.get('sizeLength'))
    elif sizeLength is not None:
        sl = int(sizeLength)
    elif 'size' in xmlEl.attrib:
        sl = encoding.getLength(int(xmlEl.get('size')))
    else:
        sl = 4
''')]

EDITS['read-id'] = [(D, '''    ch = stream.read(1)
    length, eid = decodeIDLength(ord(ch))

    if length > 4:
        raise IOError('Cannot decode element ID with length > 4.')
    if length > 1:
        eid = _struct_uint32_unpack((ch + stream.read(length-1)
                                     ).rjust(4, b'\\x00'))[0]
    return eid, length
''', '''    ch = stream.read(1)
    length, eid = decodeIDLength(ord(ch))

    if length == 1:
        return eid, 1
    if length > 4:
        raise IOError('Cannot decode element ID with length > 4.')

    rest = stream.read(length - 1)
    return _struct_uint32_unpack((ch + rest).rjust(4, b'\\x00'))[0], length
''')]

EDITS['to-xml-attribs'] = [(U, '''    if isinstance(el, core.Document):
        xmlEl.set('source', el.filename)
        xmlEl.set('schemaName', el.schema.name)
        xmlEl.set('schemaFile', el.schema.filename or '')
    else:
        if ids and isinstance(el.id, int):
            xmlEl.set('id', "0x%X" % el.id)
        if types:
            xmlEl.set('type', el.dtype.__name__)
''', '''    if isinstance(el, core.Document):
        for k, v in (('source', el.filename),
                     ('schemaName', el.schema.name),
                     ('schemaFile', el.schema.filename or '')):
            xmlEl.set(k, v)
    else:
        if ids and isinstance(el.id, int):
            xmlEl.set('id', "0x{:X}".format(el.id))
        if types:
            xmlEl.set('type', el.dtype.__name__)
''')]
