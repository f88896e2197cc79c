"""Independent reader of 16 bit PCM WAV files."""
import struct

import numpy as np


class BadWave(Exception):
    pass


def parse(raw):
    """bytes -> (rate, array (frames, channels) of int16)."""
    if len(raw) < 12 or raw[:4] != b'RIFF' or raw[8:12] != b'WAVE':
        raise BadWave('no RIFF WAVE header')
    riff, = struct.unpack('<I', raw[4:8])
    if riff + 8 > len(raw):
        raise BadWave('RIFF size %d, file has %d bytes' % (riff, len(raw)))
    pos = 12
    fmt = None
    while pos + 8 <= riff + 8:
        name = raw[pos:pos + 4]
        size, = struct.unpack('<I', raw[pos + 4:pos + 8])
        body = raw[pos + 8:pos + 8 + size]
        if len(body) < size:
            raise BadWave('chunk %r is cut off' % name)
        if name == b'fmt ':
            fmt = struct.unpack('<HHIIHH', body[:16])
        elif name == b'data':
            if fmt is None:
                raise BadWave('data before fmt')
            tag, channels, rate, perSecond, align, bits = fmt
            if tag not in (1, 0xfffe) or bits != 16 or channels < 1:
                raise BadWave('format %r' % (fmt,))
            if align != 2 * channels or perSecond != rate * align or size % align:
                raise BadWave('inconsistent format %r, %d bytes' % (fmt, size))
            return rate, np.frombuffer(body, '<i2').reshape(-1, channels)
        pos += 8 + size + (size & 1)
    raise BadWave('no data chunk')


def check_proportional(ctx, got, want, key, what):
    """16 bit samples `got` are `want` up to overall level."""
    ctx.check(got.shape == want.shape, key + '-length', '%s has %r frames x channels, %r were played', what, got.shape, want.shape)
    peak = float(np.abs(want).max()) if want.size else 0.
    got = got.astype(float)
    if peak == 0.:
        ctx.check(not np.any(got), key + '-content', '%s of silence is not silent', what)
        return
    top = float(np.abs(got).max())
    ctx.check(top >= 8000, key + '-level', '%s has a peak of only %d of 32767', what, top)
    i = np.unravel_index(int(np.argmax(np.abs(want))), want.shape)
    ctx.check(want[i] * got[i] > 0, key + '-content', '%s: frame %r is %r, %r was played', what, i, got[i], want[i])
    err = np.abs(got - want * (top / peak))
    ctx.check(err.max() <= 2.5, key + '-content', '%s: frame %r is %r, %r was played (scaled %r)', what,
              *(lambda j: (j, got[j], want[j], want[j] * top / peak))(np.unravel_index(int(np.argmax(err)), err.shape)))
