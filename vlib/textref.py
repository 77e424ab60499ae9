""" Independent model of the text layouts of binary data. """
import base64
import re


def check_base64(text, data, cols, indent=''):
    """ None if `text` is base64 of `data` in lines of `cols`, else why not. """
    lines = [x for x in text.split('\n') if x.strip()]
    whole = base64.b64encode(bytes(data)).decode()
    if not cols:
        if text.replace('\n', '') != whole or len(lines) > 1:
            return 'not one line of base64'
        return None
    want = [whole[i:i + cols] for i in range(0, len(whole), cols)]
    if lines != [indent + w for w in want]:
        return 'lines %r, expected %r' % (lines[:4], [indent + w for w in want[:4]])
    if lines and not text.startswith('\n'):
        return 'does not start on a new line'
    return None


def check_hex(text, data, width, cols, offsets, indent='', offset=0):
    """ None if `text` is the configured hex layout of `data`, else why not. """
    data = bytes(data)
    if not cols:
        words = text.split()
        if '\n' in text or '[' in text or ''.join(words) != data.hex():
            return 'not one line of hex'
        return _words(words, width, len(data))
    lines = [x for x in text.split('\n') if x.strip()]
    rows = [data[i:i + cols] for i in range(0, len(data), cols)]
    if len(lines) != len(rows):
        return '%d lines, expected %d' % (len(lines), len(rows))
    if lines and not text.startswith('\n'):
        return 'does not start on a new line'
    for n, (line, row) in enumerate(zip(lines, rows)):
        if not line.startswith(indent):
            return 'line %d is not indented' % n
        line = line[len(indent):]
        if offsets:
            m = re.match(r'\[(\d+)\] (.*)$', line)
            if not m or int(m.group(1)) != offset + n * cols or len(m.group(1)) < 6:
                return 'line %d: %r, expected offset %d' % (n, line, offset + n * cols)
            line = m.group(2)
        if '[' in line or line != line.strip() or ''.join(line.split()) != row.hex():
            return 'line %d: %r, expected %s' % (n, line, row.hex())
        if cols % width == 0:
            bad = _words(line.split(), width, len(row))
            if bad:
                return 'line %d: %s' % (n, bad)
    return None


def _words(words, width, n):
    want = [2 * min(width, n - i) for i in range(0, n, width)]
    if [len(w) for w in words] != want:
        return 'words of %r digits, expected %r' % ([len(w) for w in words][:9], want[:9])
    return None


_made = {}
DEFAULTS = {'base64': {'cols': 76}, 'hex': {'width': 2, 'cols': 32, 'offsets': True}}     # as documented


def make(cls, **kw):
    """ A codec instance whose layout is known from how it was made. """
    c = cls(**kw)
    if len(_made) > 5000:
        del _made[next(iter(_made))]
    _made[id(c)] = c, kw
    return c


def check(codec, text, data, indent='', offset=0):
    """ Judge the text of a codec instance of the library; one not from make() is a default one. """
    if codec.NAME == 'ignore':
        return None if not text else 'text from the ignore codec'
    if codec.NAME == 'percent':
        return None if text == codec.text(data, offset, indent) else 'text %r, expected %r' % (
            text[:200], codec.text(data, offset, indent)[:200])
    kw = dict(DEFAULTS[codec.NAME])
    kw.update(_made[id(codec)][1] if _made.get(id(codec), (None,))[0] is codec else {})
    if codec.NAME == 'base64':
        return check_base64(text or '', data, kw['cols'], indent)
    return check_hex(text or '', data, kw['width'], kw['cols'], kw['offsets'] and kw['cols'], indent, offset)


def user_codec():
    """ A codec added by a user, as the documentation of the library tells. Shows the offset on request. """
    from ebmlite import xml_codecs
    if 'percent' in xml_codecs.BINARY_CODECS:
        return xml_codecs.BINARY_CODECS['percent']

    class Percent(xml_codecs.BinaryCodec):
        NAME = 'percent'

        def __init__(self, show=False, **_kwargs):
            super().__init__()
            self.show = show

        def text(self, data, offset, indent):
            return ('\n%s@%d ' % (indent, offset) if self.show else '\n' + indent) + ''.join('%%%02X' % b for b in data)

        def encode(self, data, stream=None, indent='', offset=0, **kwargs):
            t = self.text(data, offset, indent)
            return t if stream is None else stream.write(t)

        @classmethod
        def decode(cls, data, stream=None):
            b = bytes(int(h, 16) for h in re.findall('%([0-9A-F]{2})', data or ''))
            return b if stream is None else stream.write(b)

    xml_codecs.BINARY_CODECS['percent'] = Percent
    return Percent
