"""The parameter sets of RFC 8391 (tables 2-5) and SP 800-208 (section 5),
written down independently of /repo: oid -> (name, func, n, full height, d)."""
SHA2, SHAKE128, SHAKE256 = 0, 1, 2
MT_SHAPES = [(20, 2), (20, 4), (40, 2), (40, 4), (40, 8), (60, 3), (60, 6), (60, 12)]
# hash family blocks in OID order: (name part, bits in the name, function, n)
BLOCKS = [('SHA2', 256, SHA2, 32), ('SHA2', 512, SHA2, 64), ('SHAKE', 256, SHAKE128, 32), ('SHAKE', 512, SHAKE256, 64),
          ('SHA2', 192, SHA2, 24), ('SHAKE256', 256, SHAKE256, 32), ('SHAKE256', 192, SHAKE256, 24)]
XMSS = {}
XMSSMT = {}
for b, (nm, bits, f, n) in enumerate(BLOCKS):
    for k, h in enumerate((10, 16, 20)):
        XMSS[1 + 3 * b + k] = ('XMSS-%s_%d_%d' % (nm, h, bits), f, n, h, 1)
    for k, (h, d) in enumerate(MT_SHAPES):
        XMSSMT[1 + 8 * b + k] = ('XMSSMT-%s_%d/%d_%d' % (nm, h, d, bits), f, n, h, d)
SHAPES = sorted({(n, h, d) for (_, _, n, h, d) in list(XMSS.values()) + list(XMSSMT.values())})
