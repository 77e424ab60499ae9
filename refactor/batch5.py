""" A fifth set of edits that change no behaviour: statements reordered, loops rewritten; `tools/seed.py quiet FILE` confirms it. """
C = 'ebmlite/core.py'; U = 'ebmlite/util.py'; T = 'ebmlite/threaded_file.py'; D = 'ebmlite/decoding.py'; E_ = 'ebmlite/encoding.py'
K = 'ebmlite/tools/utils.py'; X = 'ebmlite/xml_codecs.py'
EDITS = {}

EDITS['xml-attr-order'] = [(U, '''        if ids and isinstance(el.id, int):
            xmlEl.set('id', "0x%X" % el.id)
        if types:
            xmlEl.set('type', el.dtype.__name__)

    if offsets:
        xmlEl.set('offset', str(el.offset))
    if sizes:
        xmlEl.set('size', str(el.size))
''', '''        if types:
            xmlEl.set('type', el.dtype.__name__)
        if ids and isinstance(el.id, int):
            xmlEl.set('id', hex(el.id)[:2] + hex(el.id)[2:].upper())

    for wanted, name in ((sizes, 'size'), (offsets, 'offset')):
        if wanted:
            xmlEl.set(name, str(getattr(el, name)))
''')]

EDITS['output-before-schema'] = [(K, '''    schema = None
    try:
''', '''    output = None
    if args.output:
        output = os.path.realpath(os.path.expanduser(args.output))
    schema = None
    try:
'''), (K, '''    if not args.output:
        if binary_output:
''', '''    if output is None:
        if binary_output:
'''), (K, '''    output = os.path.realpath(os.path.expanduser(args.output))
    if os.path.exists(output) and not args.clobber:
''', '''    if not args.clobber and os.path.exists(output):
''')]

EDITS['hex-rows'] = [(X, '''        for i, b in enumerate(data):
            if newline and not i % self.cols:
                numbytes += out.write('\\n')
                numbytes += out.write(indent)
                if offsets:
                    numbytes += out.write('[{:06d}] '.format(i + offset))
            elif not i % self.width:
                numbytes += out.write(' ')
            numbytes += out.write('{:02x}'.format(b))
''', '''        step = self.cols if newline else (len(data) or 1)
        for start in range(0, len(data), step):
            line = []
            if newline:
                line.append('\\n' + indent)
                if offsets:
                    line.append('[%06d] ' % (start + offset))
            for i in range(start, min(start + step, len(data))):
                if not i % self.width and not (newline and i == start):
                    line.append(' ')
                line.append('%02x' % data[i])
            numbytes += out.write(''.join(line))
''')]

EDITS['hex-decode-join'] = [(X, '''        for word in data.split():
            if b'[' in word or b']' in word:
                continue
            for i in range(0, len(word), 2):
                numbytes += out.write((int(word[i:i+2], 16).to_bytes(1, 'big')))
''', '''        words = [w for w in data.split() if b'[' not in w and b']' not in w]
        result = bytes(int(w[i:i+2], 16) for w in words for i in range(0, len(w), 2))
        if result:
            numbytes += out.write(result)
''')]

EDITS['b64-rows'] = [(X, '''        numbytes = 0
        for chunk in range(0, len(result), self.cols):
            numbytes += out.write('\\n')
            numbytes += out.write(indent) + out.write(result[chunk:chunk+self.cols])
''', '''        numbytes = 0
        while result:
            numbytes += out.write('\\n%s%s' % (indent, result[:self.cols]))
            result = result[self.cols:]
''')]

EDITS['payload-join'] = [(C, '''            # TODO: Validation of hierarchy, multiplicity, mandate, etc.
            result.extend(cls.schema[k].encode(v))

        return result
''', '''            # TODO: Validation of hierarchy, multiplicity, mandate, etc.
            parts.append(cls.schema[k].encode(v))

        return bytearray().join(parts)
'''), (C, '''                                                               type(data)))
        for k, v in data:
''', '''                                                               type(data)))
        parts = []
        for k, v in data:
''')]

EDITS['size-order'] = [(C, '''            self._size = end - self.payloadOffset
            self._length = numChildren
            return self._size
''', '''            size = end - self.payloadOffset
            self._length = numChildren
            self._size = size
            return size
''')]

EDITS['parse-eof-helper'] = [(C, '''        while pos < payloadEnd:
            self.stream.seek(pos)
            try:
                el, pos = self.parseElement(self.stream, nocache=nocache)
                yield el
            except TypeError as err:
                if "ord()" in str(err):
                    break
                raise
''', '''        while True:
            if pos >= payloadEnd:
                return
            stream = self.stream
            stream.seek(pos)
            try:
                child, following = self.parseElement(stream, nocache)
                pos = following
                yield child
            except TypeError as problem:
                if "ord()" not in str(problem):
                    raise
                return
''')]

EDITS['handler-keywords'] = [(C, '''            etype = self.schema.elements[eid]
            el = etype(stream, offset, esize, payloadOffset)
''', '''            etype = self.schema.elements[eid]
            el = etype(stream=stream, offset=offset, size=esize, payloadOffset=payloadOffset)
''')]

EDITS['handler-get'] = [(C, '''        try:
            etype = self.schema.elements[eid]
            el = etype(stream, offset, esize, payloadOffset)
        except KeyError:
            el = self.schema.UNKNOWN(stream, offset, esize, payloadOffset,
                                     eid=eid, schema=self.schema)
''', '''        known = self.schema.elements
        if eid in known:
            el = known[eid](stream, offset, esize, payloadOffset)
        else:
            make = self.schema.UNKNOWN
            el = make(stream, offset, esize, payloadOffset, eid=eid, schema=self.schema)
''')]

EDITS['xml-parse-first'] = [(U, '''    codec = xmlEl.get('encoding', 'base64')

    if sizeLength is None:
''', '''    attribs = dict(xmlEl.attrib)
    codec = attribs.get('encoding', 'base64')

    if sizeLength is None:
'''), (U, '''        payload = BytesIO()
        size = 0
        for chEl in xmlEl:
            size += xmlElement2ebml(chEl, payload, schema, sl, unknown=unknown)
        encoded = encId + encoding.encodeSize(size, max(sl, encoding.getLength(size)))
        ebmlFile.write(encoded)
        ebmlFile.write(payload.getvalue())
        return len(encoded) + size
''', '''        payload = BytesIO()
        for chEl in xmlEl:
            xmlElement2ebml(chEl, payload, schema, sl, unknown=unknown)
        contents = payload.getvalue()
        size = len(contents)
        encoded = encId + encoding.encodeSize(size, max(sl, encoding.getLength(size))) + contents
        ebmlFile.write(encoded)
        return len(encoded)
''')]

EDITS['raw-reads'] = [(C, '''        size = self.size + (self.payloadOffset - self.offset)
        self.stream.seek(self.offset)
        return self.stream.read(size)
''', '''        end = self.payloadOffset + self.size
        stream = self.stream
        stream.seek(self.offset)
        return stream.read(end - self.offset)
'''), (C, '''        size = self.size
        self.stream.seek(self.payloadOffset)
        return self.stream.read(size)
''', '''        size, start = self.size, self.payloadOffset
        stream = self.stream
        stream.seek(start)
        raw = stream.read(size)
        return raw
''')]

EDITS['encode-parts'] = [(C, '''        payload = cls.encodePayload(value, length=length)
        encId = encoding.encodeId(cls.id)
        if infinite:
            return encId + encoding.encodeUnknownSize(lengthSize) + payload
        return encId + encoding.encodeSize(len(payload), lengthSize) + payload
''', '''        payload = cls.encodePayload(value, length=length)
        if infinite:
            size = encoding.encodeUnknownSize(lengthSize)
        else:
            size = encoding.encodeSize(len(payload), lengthSize)
        return bytes().join((encoding.encodeId(cls.id), size, payload))
''')]

EDITS['gc-loop'] = [(C, '''        cleared = 0
        if self._value is not None:
            cleared = 1
            if recurse:
                cleared += sum(ch.gc(recurse) for ch in self._value)
            self._value = None
        return cleared

    # ==========================================================================
    # Encoding
''', '''        children, self._value = self._value, None
        if children is None:
            return 0
        cleared = 1
        if recurse:
            for ch in children:
                cleared += ch.gc(recurse=recurse)
        return cleared

    # ==========================================================================
    # Encoding
''')]

EDITS['int-eq'] = [(C, '''        if not super(IntegerElement, self).__eq__(other):
            return False
        return self.value == other.value
''', '''        return super().__eq__(other) and self.value == other.value
''')]

EDITS['ids-loop'] = [(U, '''    result = []
    for i in (x for x in range(idrange[0], idrange[1] + 1) if x not in exclude):
        if len(result) == count:
            break
        result.append(i)

    return result
''', '''    result = []
    i = idrange[0]
    while i <= idrange[1] and len(result) != count:
        if i not in exclude:
            result.append(i)
        i += 1

    return result
''')]
