"""Write JPEG and TIFF images with EXIF and XMP tags, from scratch."""
import struct
import numpy as np

TYPES = dict(B=1, A=2, H=3, L=4, R=5, U=7, s=9, SR=10)
SIZE = {1: 1, 2: 1, 3: 2, 4: 4, 5: 8, 7: 1, 9: 4, 10: 8}
# name: (IFD, tag, type)
TAGS = dict(Make=('0', 0x010f, 'A'), Model=('0', 0x0110, 'A'), Orientation=('0', 0x0112, 'H'), Software=('0', 0x0131, 'A'), ImageDescription=('0', 0x010e, 'A'),
            FocalLength=('E', 0x920a, 'R'), PixelXDimension=('E', 0xa002, 'L'), PixelYDimension=('E', 0xa003, 'L'), FocalPlaneXResolution=('E', 0xa20e, 'R'), FocalPlaneYResolution=('E', 0xa20f, 'R'),
            FocalPlaneResolutionUnit=('E', 0xa210, 'H'), FocalLengthIn35mmFilm=('E', 0xa405, 'H'), BodySerialNumber=('E', 0xa431, 'A'), ExposureTime=('E', 0x829a, 'R'), DateTimeOriginal=('E', 0x9003, 'A'),
            GPSLatitudeRef=('G', 1, 'A'), GPSLatitude=('G', 2, 'R'), GPSLongitudeRef=('G', 3, 'A'), GPSLongitude=('G', 4, 'R'), GPSAltitudeRef=('G', 5, 'B'), GPSAltitude=('G', 6, 'R'))


def _value(typ, v, e):
    t = TYPES[typ]
    if typ == 'A':
        b = v.encode() + b'\0'
        return t, len(b), b
    if typ in ('R', 'SR'):
        v = v if isinstance(v[0], (list, tuple)) else [v]
        return t, len(v), b''.join(struct.pack(e + ('II' if typ == 'R' else 'ii'), *x) for x in v)
    v = v if isinstance(v, (list, tuple)) else [v]
    return t, len(v), struct.pack(e + {'B': 'B', 'H': 'H', 'L': 'I', 's': 'i', 'U': 'B'}[typ] * len(v), *v)


def tiff(tags, endian='<', base=None, data=None):
    """TIFF structure with the {name: value} tags (rationals are [numerator, denominator] or lists of these).  ``base`` is a list of (tag, type, value) for IFD0, and ``data`` image data
    for a StripOffsets tag."""
    e = endian
    ifds = {'0': list(base or []), 'E': [], 'G': []}
    for name, v in tags.items():
        ifd, tag, typ = TAGS[name]
        ifds[ifd].append((tag, typ, v))
    head = (b'II' if e == '<' else b'MM') + struct.pack(e + 'HI', 42, 8)
    pos = 8
    # layout: IFD0, E, G, each with its out of line data
    if ifds['E']:
        ifds['0'].append((0x8769, 'L', 0))
    if ifds['G']:
        ifds['0'].append((0x8825, 'L', 0))
    if data is not None:
        ifds['0'].append((273, 'L', 0))
    offs = {}
    for k in '0EG':
        if k == '0' or ifds[k]:
            offs[k] = pos
            pos += 2 + 12 * len(ifds[k]) + 4
            for tag, typ, v in ifds[k]:
                n = len(_value(typ, v, e)[2])
                pos += (n + n % 2) if n > 4 else 0
    out = head
    for k in offs:
        ents = sorted(ifds[k])if False else sorted(ifds[k], key=lambda x: x[0])
        p = offs[k] + 2 + 12 * len(ents) + 4
        b, extra = struct.pack(e + 'H', len(ents)), b''
        for tag, typ, v in ents:
            v = offs['E'] if tag == 0x8769 else offs['G'] if tag == 0x8825 else pos if tag == 273 else v
            t, n, val = _value(typ, v, e)
            if len(val) > 4:
                b += struct.pack(e + 'HHII', tag, t, n, p)
                val += b'\0' * (len(val) % 2)
                extra += val
                p += len(val)
            else:
                b += struct.pack(e + 'HHI', tag, t, n) + val.ljust(4, b'\0')
        out += b + struct.pack(e + 'I', 0) + extra
    if data is not None:
        out += data
    return out


def xmp(attrs=None, elements=None, packet=True, order=False):
    """XMP packet with {(namespace, name): value} as attributes and / or elements."""
    attrs, elements = attrs or {}, elements or {}
    ns = {}
    for (n, _) in [*attrs, *elements]:
        ns.setdefault(n, f'ns{len(ns)}')
    decl = ' '.join(f'xmlns:{p}="{n}"' for n, p in ns.items())
    a = ' '.join(f'{ns[n]}:{k}="{v}"' for (n, k), v in attrs.items())
    el = ''.join(f'<{ns[n]}:{k}>{v}</{ns[n]}:{k}>' for (n, k), v in elements.items())
    s = f'<x:xmpmeta xmlns:x="adobe:ns:meta/"><rdf:RDF xmlns:rdf="http://www.w3.org/1999/02/22-rdf-syntax-ns#"><rdf:Description rdf:about="" {decl} {a}>{el}</rdf:Description></rdf:RDF></x:xmpmeta>'
    return f'<?xpacket begin="\ufeff" id="W5M0MpCehiHzreSzNTczkc9d"?>\n{s}\n<?xpacket end="w"?>' if packet else s


def write_jpeg(path, size, tags=None, xmp_str=None, endian='<'):
    import cv2
    ok, b = cv2.imencode('.jpg', np.full((size[1], size[0], 3), 90, 'uint8'))
    b = b.tobytes()
    seg = b''
    for payload in ([b'Exif\0\0' + tiff(tags, endian)] if tags else []) + ([b'http://ns.adobe.com/xap/1.0/\0' + xmp_str.encode()] if xmp_str else []):
        seg += b'\xff\xe1' + struct.pack('>H', len(payload) + 2) + payload
    path.write_bytes(b[:2] + seg + b[2:])


def write_tiff(path, size, tags=None, xmp_str=None, endian='<'):
    w, h = size
    base = [(256, 'L', w), (257, 'L', h), (258, 'H', 8), (259, 'H', 1), (262, 'H', 1), (277, 'H', 1), (278, 'L', h), (279, 'L', w * h)]
    if xmp_str:
        base.append((700, 'B', list(xmp_str.encode())))
    path.write_bytes(tiff(tags or {}, endian, base, bytes(w * h)))
