""" More edits that change no behaviour; `tools/seed.py quiet FILE` confirms that every check stays quiet. """
C = 'ebmlite/core.py'; U = 'ebmlite/util.py'; T = 'ebmlite/threaded_file.py'; D = 'ebmlite/decoding.py'; E_ = 'ebmlite/encoding.py'
K = 'ebmlite/tools/utils.py'; X = 'ebmlite/xml_codecs.py'; EX = 'ebmlite/tools/ebml2xml.py'
EDITS = {}

EDITS['create-id'] = [(U, '''    exclude = set(exclude).union(schema.elements.keys())

    result = []
    for i in (x for x in range(idrange[0], idrange[1] + 1) if x not in exclude):
        if len(result) == count:
            break
        result.append(i)

    return result
''', '''    taken = set(exclude)
    result = []
    candidate, last = idrange
    while candidate <= last and (count < 0 or len(result) < count):
        if candidate not in taken and candidate not in schema.elements:
            result.append(candidate)
        candidate += 1

    return result
''')]

EDITS['validate-id'] = [(U, '''    try:
        # See if the first byte properly encodes the length of the ID.
        s = struct.pack(">I", elementId).lstrip(b'\\x00')
        length, _ = decoding.decodeIDLength(s[0])
        valid = len(s) == length  # Should always be True if decoding worked
        if valid:
            minId, maxId = ranges[length-1]
            if not minId <= elementId <= maxId:
                msg = "ID out of range for class %s %s" % (" ABCD"[length], ranges[length-1])
                valid = False

    # Note: Change this if decoding changes the exceptions it raises
    except OSError as err:
        valid = False
        msg = err.args[0] if err.args else msg

    if not valid:
        raise ValueError(msg, elementId)
    
    return True
''', '''    struct.pack(">I", elementId)    # only whole numbers
    for name, (minId, maxId) in zip("ABCD", ranges):
        if minId <= elementId <= maxId:
            return True
        if elementId < 256 ** ("ABCD".index(name) + 1):
            msg = "ID out of range for class %s" % name
            break

    raise ValueError(msg, elementId)
''')]

EDITS['load-xml'] = [(U, '''    if ebmlFile == ":memory:":
        ebmlFile = BytesIO()
        xml2ebml(xmlFile, ebmlFile, schema)
        ebmlFile.seek(0)
    else:
        ebmlFile = tempfile.mktemp() if ebmlFile is None else ebmlFile
        xml2ebml(xmlFile, ebmlFile, schema)

    return schema.load(ebmlFile)
''', '''    if ebmlFile == ":memory:":
        stream = BytesIO()
        xml2ebml(xmlFile, stream, schema)
        return schema.load(BytesIO(stream.getvalue()))

    if ebmlFile is None:
        ebmlFile = tempfile.mktemp()
    xml2ebml(xmlFile, ebmlFile, schema)
    return schema.load(ebmlFile)
''')]

EDITS['verify-stack'] = [(C, '''        return _crawl(self.load(BytesIO(data), headers=True))
''', '''        doc = self.load(BytesIO(data), headers=True)
        pending = [iter(doc)]
        while pending:
            for el in pending[-1]:
                if isinstance(el, MasterElement):
                    pending.append(iter(el))
                    break
                _crawl(el)
            else:
                pending.pop()
        return True
''')]

EDITS['encode-uint'] = [(E_, '''    pad = b'\\x00'

    try:
        packed = _struct_uint64.pack(val).lstrip(pad) or pad
    except struct.error as err:
        # Catch other errors. Value is probably too large for struct.
        raise ValueError(str(err))
''', '''    pad = b'\\x00'
    val = int(val)
    needed = max(1, (val.bit_length() + 7) // 8)
    if needed > 8:
        raise ValueError('Value too large: %r' % val)
    packed = val.to_bytes(needed, 'big')
''')]

EDITS['get-length'] = [(E_, '''    if val <= 126:
        return 1
    elif val <= 16382:
        return 2
    elif val <= 2097150:
        return 3
    elif val <= 268435454:
        return 4
    elif val <= 34359738366:
        return 5
    elif val <= 4398046511102:
        return 6
    elif val <= 562949953421310:
        return 7
    else:
        return 8
''', '''    length = 1
    while length < 8 and val > 2 ** (7 * length) - 2:
        length += 1
    return length
''')]

EDITS['read-size'] = [(D, '''        size = _struct_uint64_unpack((chr(size).encode('latin-1') +
                                      stream.read(length - 1)
                                      ).rjust(8, b'\\x00'))[0]
''', '''        size = int.from_bytes(bytes((size,)) + stream.read(length - 1), 'big')
''')]

EDITS['read-int'] = [(D, '''    data = stream.read(size)
    if data[0] & 0b10000000:
        pad = b'\\xff'
    else:
        pad = b'\\x00'
    return _struct_int64_unpack_from(data.rjust(8, pad))[0]
''', '''    data = stream.read(size)
    pad = b'\\xff' if data[0] >= 0x80 else b'\\x00'
    return _struct_int64_unpack((pad * 8 + data)[-8:] if len(data) < 8 else data[:8])[0]
''')]

EDITS['base64-text'] = [(X, '''        numbytes = 0
        for chunk in range(0, len(result), self.cols):
            numbytes += out.write('\\n')
            numbytes += out.write(indent) + out.write(result[chunk:chunk+self.cols])
''', '''        rows = [result[i:i + self.cols] for i in range(0, len(result), self.cols)]
        numbytes = sum(out.write('\\n' + indent + row) for row in rows)
''')]

EDITS['hex-decode'] = [(X, '''            for i in range(0, len(word), 2):
                numbytes += out.write((int(word[i:i+2], 16).to_bytes(1, 'big')))
''', '''            decoded = bytes(int(word[i:i+2], 16) for i in range(0, len(word), 2))
            numbytes += out.write(decoded)
''')]

EDITS['pprint-lines'] = [(U, '''        out.write("%06s %06s %s %s (ID 0x%0X)" % (el.offset, el.size, tab, el.name, el.id))
        if isinstance(el, core.MasterElement):
            out.write(": (master) %d subelements\\n" % len(el.value))
''', '''        line = "%06s %06s %s %s (ID 0x%0X)" % (el.offset, el.size, tab, el.name, el.id)
        out.write(line + ": ")
        if isinstance(el, core.MasterElement):
            out.write("(master) %d subelements\\n" % len(el.value))
'''), (U, '''            out.write(": (%s)" % el.dtype.__name__)
''', '''            out.write("(%s)" % el.dtype.__name__)
''')]

EDITS['ebml2xml-options'] = [(EX, '''        if args.max:
            root = ebmlite.util.toXml(doc, offsets=True, sizes=True, types=True, ids=True, binary_codec=codec)
        else:
            root = ebmlite.util.toXml(doc, offsets=False, sizes=False, types=False, ids=False, binary_codec=codec)
        s = ET.tostring(root, encoding="utf-8")
        if args.single:
            out.write(s)
        else:
            out.write(parseString(s).toprettyxml(indent='\\t', newl='\\n', encoding='utf-8'))
''', '''        attribs = dict.fromkeys(('offsets', 'sizes', 'types', 'ids'), args.max)
        root = ebmlite.util.toXml(doc, binary_codec=codec, **attribs)
        xml = ET.tostring(root, encoding="utf-8")
        if not args.single:
            xml = parseString(xml).toprettyxml(indent='\\t', newl='\\n', encoding='utf-8')
        out.write(xml)
''')]

EDITS['load-files'] = [(K, '''    if not args.output:
        if binary_output:
            # Text streams can't take bytes, and stdout may not be seekable.
            out = BytesIO()
            yield schema, out
            sys.stdout.buffer.write(out.getvalue())
        else:
            yield schema, sys.stdout
        return

    output = os.path.realpath(os.path.expanduser(args.output))
''', '''    if not args.output and not binary_output:
        yield schema, sys.stdout
        return
    if not args.output:
        # Text streams can't take bytes, and stdout may not be seekable.
        out = BytesIO()
        yield schema, out
        sys.stdout.flush()
        sys.stdout.buffer.write(out.getvalue())
        sys.stdout.buffer.flush()
        return

    output = os.path.realpath(os.path.expanduser(args.output))
''')]

EDITS['schema-getitem'] = [(C, '''        return (key in self.elementsByName) or (key in self.elements)
''', '''        return any(key in d for d in (self.elements, self.elementsByName))
'''), (C, '''        try:
            return self.elements[key]
        except KeyError:
            return self.elementsByName[key]
''', '''        found = self.elements.get(key)
        return self.elementsByName[key] if found is None else found
''')]

EDITS['encode-pairs'] = [(C, '''        for k, v in data:
            if k not in cls.schema:
                raise TypeError("Element type %r not found in schema" % k)
            # TODO: Validation of hierarchy, multiplicity, mandate, etc.
            result.extend(cls.schema[k].encode(v))

        return result
''', '''        chunks = []
        for k, v in data:
            if k not in cls.schema:
                raise TypeError("Element type %r not found in schema" % k)
            # TODO: Validation of hierarchy, multiplicity, mandate, etc.
            chunks.append(cls.schema[k].encode(v))

        result.extend(b''.join(chunks))
        return result
''')]

EDITS['document-encode'] = [(C, '''        if headers is True:
            stream.write(cls.encodePayload(cls._createHeaders()))

        if isinstance(data, list):
            if len(data) > 0 and isinstance(data[0], list):
                # List of lists: special case for Documents.
                # Encode as multiple 'root' elements.
                raise TypeError('Cannot encode multiple Documents')
            else:
                for v in data:
                    # Either a dictionary or a single name/value tuple
                    stream.write(cls.encodePayload([v] if isinstance(v, tuple) else v))
        else:
            stream.write(cls.encodePayload(data))
''', '''        if headers is True:
            stream.write(cls.encodePayload(cls._createHeaders()))

        if not isinstance(data, list):
            stream.write(cls.encodePayload(data))
            return

        if data and isinstance(data[0], list):
            # List of lists: special case for Documents.
            # Encode as multiple 'root' elements.
            raise TypeError('Cannot encode multiple Documents')

        for v in data:
            # Either a dictionary or a single name/value tuple
            payload = cls.encodePayload([v]) if isinstance(v, tuple) else cls.encodePayload(v)
            stream.write(payload)
''')]

EDITS['master-size-len'] = [(C, '''                n = 0  # In case there's nothing to enumerate
                for n, _el in enumerate(self.__iter__(nocache=True), 1):
                    pass
                self._length = n
''', '''                self._length = sum(1 for _el in self.__iter__(nocache=True))
''')]

EDITS['getraw'] = [(C, '''        # Get the size first; finding that of an 'infinite' element seeks.
        size = self.size + (self.payloadOffset - self.offset)
        self.stream.seek(self.offset)
        return self.stream.read(size)
''', '''        end = self.payloadOffset + self.size
        self.stream.seek(self.offset)
        return self.stream.read(end - self.offset)
''')]

EDITS['dump'] = [(C, '''        result = {}
        for el in self:
            if el.multiple:
                result.setdefault(el.name, []).append(el.dump())
            else:
                result[el.name] = el.dump()
        return result
''', '''        result = {}
        for el in self:
            name, value = el.name, el.dump()
            if not el.multiple:
                result[name] = value
            elif name in result:
                result[name].append(value)
            else:
                result[name] = [value]
        return result
''')]

EDITS['xml2ebml-root'] = [(U, '''    if xmlRoot.tag == schema.document.__name__:
        for el in xmlRoot:
            numBytes += xmlElement2ebml(el, ebmlFile, schema, sizeLength,
                                        unknown=unknown)
    else:
        numBytes += xmlElement2ebml(xmlRoot, ebmlFile, schema, sizeLength,
                                    unknown=unknown)
''', '''    isDocument = xmlRoot.tag == schema.document.__name__
    elements = list(xmlRoot) if isDocument else [xmlRoot]
    numBytes += sum(xmlElement2ebml(el, ebmlFile, schema, sizeLength, unknown=unknown)
                    for el in elements)
''')]

EDITS['get-bool'] = [(C, '''            try:
                return str(d[k]).strip()[0] in 'Tt1'
            except (KeyError, TypeError, IndexError, ValueError):
                # TODO: Don't fail silently for some exceptions.
                pass
            return default
''', '''            text = str(d[k]).strip() if k in d else ''
            # TODO: Don't fail silently for some exceptions.
            return text[0] in ('T', 't', '1') if text else default
''')]

EDITS['encode-date'] = [(E_, '''    delta = val - datetime.datetime(2001, 1, 1, tzinfo=None)
    nanoseconds = (delta.microseconds +
                   ((delta.seconds + (delta.days * 86400)) * 1000000)) * 1000
    return encodeInt(nanoseconds, length)
''', '''    delta = val - datetime.datetime(2001, 1, 1, tzinfo=None)
    return encodeInt(delta // datetime.timedelta(microseconds=1) * 1000, length)
''')]
