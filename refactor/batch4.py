""" A fourth set of edits that change no behaviour: memos, logging, added members; `tools/seed.py quiet FILE` confirms it. """
C = 'ebmlite/core.py'; U = 'ebmlite/util.py'; T = 'ebmlite/threaded_file.py'; D = 'ebmlite/decoding.py'; E_ = 'ebmlite/encoding.py'
K = 'ebmlite/tools/utils.py'; X = 'ebmlite/xml_codecs.py'
EDITS = {}

EDITS['memo-ids'] = [(E_, '''    try:
        return encodeUInt(eid, length)
    except TypeError:
''', '''    try:
        if length is None and type(eid) is int:
            if eid not in _IDS:
                _IDS[eid] = encodeUInt(eid)
            return _IDS[eid]
        return encodeUInt(eid, length)
    except TypeError:
'''), (E_, '''# Translation table for removing''', '''# IDs already encoded
_IDS = {}

# Translation table for removing''')]

EDITS['lru-length'] = [(E_, '''def getLength(val: int) -> int:
''', '''@functools.lru_cache(maxsize=1024)
def getLength(val: int) -> int:
'''), (E_, '''import struct
''', '''import functools
import struct
''')]

EDITS['logging'] = [(C, '''    with filename.open('rb') as fs:
        schema = Schema(fs, **kwargs)
''', '''    logger.debug('loading %s', filename)
    with filename.open('rb') as fs:
        schema = Schema(fs, **kwargs)
'''), (C, '''        offset = stream.tell()
        eid, idlen = readElementID(stream)
''', '''        offset = stream.tell()
        logger.debug('element at %s', offset)
        eid, idlen = readElementID(stream)
'''), (C, '''SCHEMATA = {}
''', '''SCHEMATA = {}

logger = logging.getLogger(__name__)
'''), (C, '''import errno
''', '''import errno
import logging
''')]

EDITS['child-memo'] = [(C, '''        return elId in cls.children or elId in cls.schema.globals
''', '''        key = (cls, elId, len(cls.children), len(cls.schema.globals))
        if key not in cls.schema._valid:
            cls.schema._valid[key] = elId in cls.children or elId in cls.schema.globals
        return cls.schema._valid[key]
'''), (C, '''        self.globals = {}   # Elements valid for any parent, by ID
''', '''        self.globals = {}   # Elements valid for any parent, by ID
        self._valid = {}    # Memo of MasterElement._isValidChild()
''')]

EDITS['type-get'] = [(C, '''        try:
            etype = self.schema.elements[eid]
            el = etype(stream, offset, esize, payloadOffset)
        except KeyError:
            el = self.schema.UNKNOWN(stream, offset, esize, payloadOffset,
                                     eid=eid, schema=self.schema)
''', '''        schema = self.schema
        etype = schema.elements.get(eid)
        if etype is not None:
            el = etype(stream, offset, esize, payloadOffset)
        else:
            el = schema.UNKNOWN(stream, offset, esize, payloadOffset,
                                eid=eid, schema=schema)
''')]

EDITS['load-order'] = [(C, '''    # A name found in an alternative path may be a different file
    cacheName = not paths
    paths = paths or SCHEMA_PATH
    origName = str(filename)
    filename = Path(filename)

    if cacheName and origName in SCHEMATA and not reload:
        return SCHEMATA[origName]
''', '''    origName = str(filename)
    filename = Path(filename)
    # A name found in an alternative path may be a different file
    cacheName = not paths
    if cacheName:
        paths = list(SCHEMA_PATH)
        cached = None if reload else SCHEMATA.get(origName)
        if cached is not None:
            return cached
'''), (C, '''        if isinstance(filename, Path) and len(filename.parts) == 1:
            # Not a specific path and file not found: search paths in SCHEMA_PATH
            for p in paths:
                try:
                    f = _expandSchemaPath(p, filename)
                    if f.is_file():
                        filename = f
                        break
                except ModuleNotFoundError:
                    continue
''', '''        if isinstance(filename, Path) and len(filename.parts) == 1:
            # Not a specific path and file not found: search paths in SCHEMA_PATH
            candidates = []
            for p in paths:
                with contextlib.suppress(ModuleNotFoundError):
                    candidates.append(_expandSchemaPath(p, filename))
            filename = next((f for f in candidates if f.is_file()), filename)
'''), (C, '''import errno
''', '''import contextlib
import errno
''')]

EDITS['tools-exit'] = [(K, '''    sys.stderr.write("%s\\n" % msg)
    sys.stderr.flush()
    exit(1)


''', '''    print(msg, file=sys.stderr, flush=True)
    sys.exit(1)


'''), (K, '''        sys.stderr.write("Input file does not exist: %s\\n" % args.input)
        exit(1)

    schema = None
    try:
        schema_file = args.schema
        if os.path.splitext(schema_file.strip())[1] == '':
            schema_file += '.xml'
        schema = core.loadSchema(schema_file)
    except IOError as err:
        errPrint("Error loading schema: %s\\n" % err)
''', '''        errPrint("Input file does not exist: %s" % args.input)

    schema_file = args.schema
    _base, ext = os.path.splitext(schema_file.strip())
    try:
        schema = core.loadSchema(schema_file if ext else schema_file + '.xml')
    except OSError as err:
        errPrint("Error loading schema: %s" % err)
''')]

EDITS['tools-output'] = [(K, '''    output = os.path.realpath(os.path.expanduser(args.output))
    if os.path.exists(output) and not args.clobber:
        errPrint("Error: Output file already exists: %s" % args.output)
    with open(output, ('wb' if binary_output else 'w'),
              encoding=(None if binary_output else 'utf-8')) as out:
        yield schema, out''', '''    output = os.path.realpath(os.path.expanduser(args.output))
    if not args.clobber and os.path.exists(output):
        errPrint("Error: Output file already exists: %s" % args.output)
    options = {'mode': 'wb'} if binary_output else {'mode': 'w', 'encoding': 'utf-8'}
    with open(output, **options) as out:
        yield schema, out''')]

EDITS['xml-value-helper'] = [(U, '''    elif issubclass(cls, core.DateElement):
        val = datetime.fromisoformat(xmlEl.get('value'))
    elif issubclass(cls, core.FloatElement):
        val = xmlEl.get('value')
        try:
            val = float(val)  # including infinity and NaN
        except ValueError:
            val = ast.literal_eval(val)
    elif issubclass(cls, core.IntegerElement):
        val = ast.literal_eval(xmlEl.get('value'))
    else:
        val = cls.dtype(xmlEl.get('value'))
''', '''    else:
        val = _valueFromXml(cls, xmlEl.get('value'))
'''), (U, '''def xmlElement2ebml(xmlEl,
''', '''def _valueFromXml(cls, text):
    """ The value of anything but binary and master elements. """
    if issubclass(cls, core.DateElement):
        return datetime.fromisoformat(text)
    if issubclass(cls, core.FloatElement):
        try:
            return float(text)  # including infinity and NaN
        except ValueError:
            return ast.literal_eval(text)
    if issubclass(cls, core.IntegerElement):
        return ast.literal_eval(text)
    return cls.dtype(text)


def xmlElement2ebml(xmlEl,
''')]

EDITS['to-xml-first'] = [(U, '''    if isinstance(el, core.Document):
        elname = el.__class__.__name__
    else:
        elname = el.name

    if parent is None:
        xmlEl = ET.Element(elname)
    else:
        xmlEl = ET.SubElement(parent, elname)
''', '''    elname = type(el).__name__ if isinstance(el, core.Document) else el.name

    xmlEl = ET.Element(elname)
    if parent is not None:
        parent.append(xmlEl)
''')]

EDITS['pprint-header'] = [(U, '''    if _depth == 0:
        if values:
            out.write("Offset Size   Element (ID): Value\\n")
        else:
            out.write("Offset Size   Element (ID)\\n")
        out.write("====== ====== =================================\\n")
''', '''    if not _depth:
        print("Offset Size   Element (ID)" + (": Value" if values else ""), file=out)
        print("======", "======", "=" * 33, file=out)
''')]

EDITS['thread-local'] = [(T, '''        try:
            return _thread.ident
        except AttributeError:
            _thread.ident = object()
            return _thread.ident
''', '''        ident = getattr(_thread, 'ident', None)
        if ident is None:
            ident = _thread.ident = object()
        return ident
''')]

EDITS['thread-stream'] = [(T, '''        fp = self.threads.get(ident)
        if fp is None:
            # First access from this thread. Open the file.
            fp = io.FileIO(*self.initArgs, **self.initKwargs)
            self.threads[ident] = fp
        return fp
''', '''        fp = self.threads.get(ident)
        if fp is not None:
            return fp
        # First access from this thread. Open the file.
        opened = io.FileIO(*self.initArgs, **self.initKwargs)
        return self.threads.setdefault(ident, opened)
''')]

EDITS['hex-buffer'] = [(X, '''        if stream is None:
            out = BytesIO()
        else:
            out = stream
        numbytes = 0

        if not data:
''', '''        numbytes = 0

        if not data:
'''), (X, '''        for word in data.split():
            if b'[' in word or b']' in word:
                continue
            for i in range(0, len(word), 2):
                numbytes += out.write((int(word[i:i+2], 16).to_bytes(1, 'big')))

        if stream is None:
            return out.getvalue()

        return numbytes
''', '''        words = [word for word in data.split() if b'[' not in word and b']' not in word]
        result = bytes(int(word[i:i+2], 16) for word in words for i in range(0, len(word), 2))
        if stream is None:
            return result

        numbytes += stream.write(result)
        return numbytes
''')]

EDITS['getinfo'] = [(C, '''        return self._getInfo(0x4282, str)  # ID of EBML 'DocType'
''', '''        try:
            return str(self.elementInfo[0x4282]['default'])
        except KeyError:
            return None
''')]

EDITS['gc-generator'] = [(C, '''        cleared = 0
        if self._value is not None:
            cleared = 1
            if recurse:
                cleared += sum(ch.gc(recurse) for ch in self._value)
            self._value = None
        return cleared
''', '''        children, self._value = self._value, None
        if children is None:
            return 0
        return 1 + (sum(ch.gc(recurse) for ch in children) if recurse else 0)
''')]

EDITS['extra-members'] = [(C, '''    def getRaw(self) -> bytes:
''', '''    @property
    def endOffset(self) -> int:
        """ The offset of what follows. """
        return self.payloadOffset + self.size


    def getRaw(self) -> bytes:
'''), (C, '''    def loads(self, data: bytes, name: Optional[str] = None) -> Document:
''', '''    def __len__(self) -> int:
        """ The number of element definitions. """
        return len(self.elements)


    def __bool__(self) -> bool:
        return True


    def loads(self, data: bytes, name: Optional[str] = None) -> Document:
''')]
