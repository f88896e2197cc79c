"""Objects sent over the network, described by JSON specs."""
import numpy as np

from klangsim.audiopatch import signal

DTYPES = ['float64', 'float32', 'int16', 'uint8', 'int64', 'bool', '>f4', '<f8', '>i4', 'complex128', 'float16']


def gen_json(rng, depth=2):
    u = rng.random()
    if depth and u < .2:
        return [gen_json(rng, depth - 1) for _ in range(rng.randint(0, 4))]
    if depth and u < .4:
        keys = ['a', '', 'type', 'dtype', 'data', 'pitch', 'ü', 'x y', '"']
        ret = {rng.choice(keys): gen_json(rng, depth - 1) for _ in range(rng.randint(0, 4))}
        if ret.get('type') in ('Note', 'ndarray'):
            del ret['type']
        return ret
    return rng.choice([None, True, False, 0, 1, -1, 0., 1., -0.5, 1e300, 5e-324, -0., 1 / 3, 2 ** 60, -2 ** 70, '', 'x', 'Note', 'äöü€𝄞',
                       '"quoted" \\ back\nslash', '\x00\x7f', '\ud800', '\u2028', ' ', '\t x ', '}{][', rng.random(), rng.randint(-9999, 9999)])


def gen_object(rng, big=True):
    u = rng.random()
    if u < .35:
        kind = rng.choice(['plain', 'plain', 'freq', 'numpy', 'temper', 'float'])
        return ['note', kind, rng.choice([0, 127, rng.randint(0, 127), 60]), rng.choice([0., 1., rng.random(), 1 / 3]),
                rng.choice([0., 440., rng.uniform(0, 20000), 1e-9])]
    if u < .7:
        layout = rng.choice(['C', 'C', 'F', 'strided', 'negative', 'zerodim', 'empty', 'column', 'broadcast', 'readonly'])
        shape = rng.choice([[256], [2, 256], [256, 2], [1], [3, 2, 2], [7], [1, 1, 1]] + ([[4, 256], [8, 256], [20, 256] if rng.random() < .1 else [5]] if big else []))
        dtype = rng.choice(DTYPES[:2] if rng.random() < .5 else DTYPES)
        if np.prod(shape) * np.dtype(dtype).itemsize * (2 if layout == 'broadcast' else 1) > 45000:   # No datagram holds it
            shape = [256]
        return ['array', dtype, shape, layout, rng.randrange(1 << 20)]
    if u < .76:
        return ['scalar', rng.choice(['float32', 'float64', 'int64', 'int16', 'bool_']), rng.randint(0, 1000)]
    if u < .78 and big:
        return ['long', rng.choice(['text', 'umlauts', 'list', 'nested', 'keys', 'integer']), rng.choice([300, 1000, 2000, 4000])]
    return ['json', gen_json(rng)]


# Values which are not equal to themselves or not told apart by ==
SPECIAL = [float('nan'), float('inf'), -float('inf'), -0., 1e300, 5e-324]


def long_json(kind, n):
    if kind == 'text':
        return 'klang ' * n
    if kind == 'umlauts':
        return 'äöü€𝄞' * (n // 5)
    if kind == 'list':
        return list(range(n))
    if kind == 'keys':
        return {'key %d' % i: i / 7 for i in range(n // 2)}
    if kind == 'integer':
        return 7 ** n
    ret = []
    for _ in range(n // 20):
        ret = [ret]
    return ret


def build(spec):
    from klang.messages import Note
    from klang.music.tunings import TEMPERAMENTS
    kind = spec[0]
    if kind == 'note':
        _, how, pitch, velocity, frequency = spec
        if how == 'freq':
            return Note(pitch, velocity, frequency)
        if how == 'numpy':
            return Note(np.int64(pitch), np.float32(velocity), np.float64(frequency))
        if how == 'temper':
            return Note(pitch, velocity, temperament=TEMPERAMENTS['Young'])
        if how == 'float':
            return Note(pitch + .5, velocity, frequency) if pitch < 127 else Note(127., velocity, frequency)
        return Note(pitch, velocity)
    if kind == 'array':
        _, dtype, shape, layout, seed = spec
        if layout == 'zerodim':
            shape = []
        elif layout == 'empty':
            shape = [0] + shape[1:]
        if layout == 'strided':
            full = list(shape[:-1]) + [shape[-1] * 2]
        else:
            full = shape
        arr = np.asarray(signal(seed, 0, full, 100.)).astype(np.dtype(dtype))
        if seed % 8 == 0 and arr.dtype.kind in 'fc' and arr.size:
            arr.flat[::3] = SPECIAL[seed // 8 % len(SPECIAL)]
        if layout == 'F':
            arr = np.asfortranarray(arr)
        elif layout == 'strided':
            arr = arr[..., ::2]
        elif layout == 'negative':
            arr = arr[::-1]
        elif layout == 'column':
            arr = arr.T
        elif layout == 'broadcast':
            arr = np.broadcast_to(arr, (2,) + arr.shape)
        elif layout == 'readonly':
            arr.setflags(write=False)
        return arr
    if kind == 'scalar':
        return getattr(np, spec[1])(spec[2])
    if kind == 'long':
        return long_json(spec[1], spec[2])
    return spec[1]


def same(want, got):
    """Equal in type, shape and content. Numpy scalars arrive as numbers."""
    from klang.messages import Note
    if isinstance(want, Note):
        return type(got) is Note and all(float(a) == float(b) for a, b in zip(want, got))
    if isinstance(want, np.ndarray):
        return isinstance(got, np.ndarray) and want.dtype == got.dtype and want.shape == got.shape and \
            want.tobytes() == got.tobytes()
    if isinstance(want, np.generic):
        return not isinstance(got, (np.ndarray, str, list, dict, type(None))) and want == got
    if type(want) is not type(got):
        return False
    if isinstance(want, list):
        return len(want) == len(got) and all(map(same, want, got))
    if isinstance(want, dict):
        return want.keys() == got.keys() and all(same(want[k], got[k]) for k in want)
    return want == got and str(want) == str(got)


def brief(x):
    if isinstance(x, np.ndarray):
        return 'array(%s, %s)' % (x.dtype, x.shape)
    return repr(x)[:120]
